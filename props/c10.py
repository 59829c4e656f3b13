"""Tagging: the words cover each eojeol and carry tags the dictionary and the templates allow."""
from .common import *
from pyvc import loader
from pyvc.spec import ALIASES
from pyvc.theory import Ty

T = 'soynlp.postagger.'
DIC, GEN, EVA, POST, TAG = T + '_dictionary:Dictionary', T + '_template:LRTemplateMatcher', T + '_evaluator:LREvaluator', T + '_tagger:UnknowLRPostprocessor', T + '_tagger:SimpleTagger'
NOTES = ['weights are at least seven (name, number) pairs; preferences are numbers', 'candidate rows are lists used as records: they are never changed after they are stored',
         'numbers are real: scores only decide which candidates are preferred']
PD = 'dict[str,set[str]]'
TM = 'dict[str,list[str]]'
all_ = lambda s, b, v='i': 'forall(lambda {2}: implies(0 <= {2} and {2} < len({0}), {1}))'.format(s, b, v)
some_ = lambda s, b, v='i': 'exists(lambda {2}: 0 <= {2} and {2} < len({0}) and {1})'.format(s, b, v)
pairs = lambda s, b: 'forall(lambda i, j: implies(0 <= i and i < j and j < len({0}), {1}))'.format(s, b)


def build():
    c = context()
    ALIASES['LR'] = Ty('tup', ty('tup[str,opt[str],str,opt[str],int,int,int]').a, ['l', 'l_tag', 'r', 'r_tag', 'b', 'm', 'e'], loader.resolve(T + '_template:LR'))
    c.cls(DIC, {'pos_dict': PD, 'max_length': 'int'}, ['forall(lambda t, w: implies(t in self.pos_dict and w in self.pos_dict[t], len(w) <= self.max_length), t="str", w="str")'])
    c.cls(GEN, {'dictionary': 'obj ' + DIC, 'ltags': 'set[str]', 'templates': TM})
    c.cls(EVA, {'weights': 'list[tup[str,real]]', 'preference': 'dict[str,dict[str,real]]'}, ['len(self.weights) >= 7'])
    c.cls(POST, {})
    c.cls(TAG, {'generator': 'obj ' + GEN, 'evaluator': 'obj ' + EVA, 'postprocessor': 'obj ' + POST, 'dictionary': 'obj ' + DIC})
    d, g, e, p, s = [('self', 'obj ' + x) for x in (DIC, GEN, EVA, POST, TAG)]
    tok = ('token', 'str')
    c.add(Contract(DIC + '.get_pos', [d, ('word', 'str')], returns='list[str]', assumed='C11', ensures=['forall(lambda t: iff(t in result, t in self.pos_dict and word in self.pos_dict[t]), t="str")']))
    c.add(Contract(DIC + '.word_is_tag', [d, ('word', 'str'), ('tag', 'str')], returns='bool', assumed='C11', ensures=['iff(result, tag in self.pos_dict and word in self.pos_dict[tag])']))
    # r is a stretch of t; its tags are sanctioned
    c.fn('SPANS', [('r', 'LR'), ('t', 'str')], 'bool', '0 <= r.b < r.m <= r.e <= len(t) and r.l == t[r.b:r.m] and r.r == t[r.m:r.e]')
    c.fn('KNOWN', [('d', PD), ('w', 'str'), ('t', 'str')], 'bool', 't in d and w in d[t]')
    W = [('d', PD), ('lt', 'set[str]'), ('tm', TM)]
    c.fn('SANCTIONED', W + [('r', 'LR')], 'bool',
         'r.l_tag is not None and some(r.l_tag) in lt and KNOWN(d, r.l, some(r.l_tag)) and (r.r_tag is None and r.m == r.e or r.m < r.e and r.r_tag is not None and some(r.l_tag) in tm and some(r.r_tag) in tm[some(r.l_tag)] and KNOWN(d, r.r, some(r.r_tag)))')
    D = lambda o='self': '{0}.dictionary.pos_dict, {0}.ltags, {0}.templates'.format(o)
    c.fn('SPAN', [('s', 'list[LR]'), ('b', 'int'), ('e', 'int')], 'bool', some_('s', 's[i].b == b and s[i].e == e'))
    return parts(c, locals())


def parts(c, v):
    g, tok, D = v['g'], v['tok'], v['D']
    ROW = 'tup[str,str,int,int]'
    rows, LRS = 'list[%s]' % ROW, 'list[LR]'
    okrow = lambda r: '0 <= {0}[2] and {0}[2] < {0}[3] and {0}[3] <= len(t) and {0}[0] == t[{0}[2]:{0}[3]] and {0}[1] in self.ltags and KNOWN(self.dictionary.pos_dict, {0}[0], {0}[1])'.format(r)
    okr = lambda r, t: 'SPANS({0}, {1}) and SANCTIONED({2}, {0})'.format(r, t, D())
    # the left part of x is the row r; some row is; x is among the records
    c.fn('MATCH', [('r', ROW), ('x', 'LR')], 'bool', 'x.l_tag is not None and r[0] == x.l and r[1] == some(x.l_tag) and r[2] == x.b and r[3] == x.m')
    for f, s, b in (('ROWS', rows, 'MATCH({}, x)'), ('HAS', LRS, '{} == x')):
        c.fn(f, [('s', s), ('x', 'LR')], 'bool', some_('s', b.format('s[i]')))
        c.lemma(f + 'push', [('s', s), ('y', s[5:-1]), ('x', 'LR')], [], ['%s(s + [y], x) == (%s(s, x) or %s)' % (f, f, b.format('y'))], trig=['%s(s + [y], x)' % f])
        c.lemma(f + 'sub', [('s', s), ('t', s), ('x', 'LR')], [all_('s', 's[i] in t'), '%s(s, x)' % f], ['%s(t, x)' % f], trig=['%s(t, x), len(s)' % f])
    lk = lambda x: 'x in self.ltags and KNOWN(self.dictionary.pos_dict, %s, x)' % x
    c.add(Contract(GEN + '._pos_L', [g, ('word', 'str')], returns='set[str]', ensures=['forall(lambda x: iff(x in result, %s), x="str")' % lk('word')]))
    # x is a candidate that has to be found
    c.fn('WANTED', [('d', PD), ('lt', 'set[str]'), ('tm', TM), ('x', 'LR'), ('t', 'str')], 'bool', 'SPANS(x, t) and SANCTIONED(d, lt, tm, x) and x.m - x.b >= 2')
    want = lambda cond, concl, t='t': 'forall(lambda x: implies(%s, WANTED(%s, x, %s) == False or %s), x="LR")' % (cond, D(), t, concl) if cond else 'forall(lambda x: implies(WANTED(%s, x, %s), %s), x="LR")' % (D(), t, concl)
    inv = all_('candidates', okrow('candidates[i]'))
    X = {'candidates': rows}
    c.add(Contract(GEN + '._initialize_L', [g, ('t', 'str')], returns=rows, paths=True, ensures=[all_('result', okrow('result[i]')), want('', 'ROWS(result, x)')]))
    c.loops[GEN + '._initialize_L'] = [Loop([inv, want('x.b < _at', 'ROWS(candidates, x)')], types=X, name='b'),
        Loop([inv, want('x.b < b or x.b == b and x.m < _at', 'ROWS(candidates, x)')], types=X, name='e'),
        Loop([inv, want('x.b < b or x.b == b and x.m < e or x.b == b and x.m == e and _idx(some(x.l_tag)) < _i', 'ROWS(candidates, x)')], types=X)]
    c.add(Contract(GEN + '._expand_R', [g, ('t', 'str'), ('candidates', rows)], returns=LRS, paths=True, requires=[inv], ensures=[all_('result', okr('result[i]', 't')), want('ROWS(candidates, x)', 'HAS(result, x)')]))
    inv = all_('expanded', okr('expanded[i]', 't'))
    X = {'expanded': LRS}
    wk = lambda k, cond='True': 'forall(lambda k, x: implies(0 <= k < %s and MATCH(candidates[k], x) and %s and WANTED(%s, x, t), HAS(expanded, x)), x="LR")' % (k, cond, D())
    one = lambda cond: 'forall(lambda x: implies(MATCH(candidates[_i_c], x) and %s and WANTED(%s, x, t), HAS(expanded, x)), x="LR")' % (cond, D())
    c.loops[GEN + '._expand_R'] = [Loop([inv, wk('_i')], types=X, name='c'), Loop([inv, wk('_i_c'), one('x.e < _at')], types=X, name='e'),
        Loop([inv, wk('_i_c'), one('x.e < e2'), 'forall(lambda k, x: implies(0 <= k < _i and MATCH(candidates[_i_c], x) and x.e == e2 and x.r_tag == _it(k) and WANTED(%s, x, t), HAS(expanded, x)), x="LR")' % D()], types=X)]
    W = [('d', PD), ('lt', 'set[str]'), ('tm', TM)]
    # the candidates of an eojeol: all sanctioned, none missing
    c.fn('FULL', W + [('s', LRS), ('t', 'str')], 'bool', all_('s', 'SPANS(s[i], t) and SANCTIONED(d, lt, tm, s[i])') + ' and forall(lambda x: implies(WANTED(d, lt, tm, x, t), HAS(s, x)), x="LR")')
    c.add(Contract(GEN + '.generate', [g, tok], returns=LRS, ensures=['FULL(%s, result, token)' % D(), all_('result', okr('result[i]', 'token')), want('', 'HAS(result, x)', 'token')]))
    # choosing: what is kept are candidates that do not overlap, and every candidate overlaps a kept one
    eva = v['e']
    SC = 'list[tup[LR,real]]'
    over = lambda x, y: '({0}.b < {1}.e and {0}.e > {1}.b)'.format(x, y)
    c.add(Contract(EVA + '.evaluate', [eva, ('candidate', 'LR')], returns='real'))
    c.fn('APART', [('r', LRS)], 'bool', 'forall(lambda i, j: implies(0 <= i < len(r) and 0 <= j < len(r) and i != j, r[i].e <= r[j].b or r[j].e <= r[i].b))')
    c.fn('SERVED', [('s', LRS), ('x', 'LR')], 'bool', some_('s', over('s[i]', 'x')))
    c.lemma('served', [('s', LRS), ('y', 'LR'), ('x', 'LR')], [], ['SERVED(s + [y], x) == (SERVED(s, x) or %s)' % over('y', 'x')], trig=['SERVED(s + [y], x)'])
    c.lemma('serveds', [('s', LRS), ('t', LRS), ('x', 'LR')], [all_('s', 's[i] in t'), 'SERVED(s, x)'], ['SERVED(t, x)'], trig=['SERVED(t, x), len(s)'])
    c.fn('SORTED', [('r', LRS)], 'bool', pairs('r', 'r[i].b <= r[j].b'))
    spans = lambda s, e='': '0 <= %s.b and %s.b < %s.e' % (s, s, s)
    cs = 'scored_candidates'
    o = 'scored_candidates'
    x = 'b < {0}[0].e and e > {0}[0].b'
    disj = lambda r: pairs(r, '({0}[i].e <= {0}[j].b or {0}[j].e <= {0}[i].b)'.format(r))
    S0 = 'pre(sorted_)'
    P = '(removals[len(removals) - _i] if _i > 0 else len(%s))' % S0
    c.fn('FROM', [('s', SC), ('x', 'LR')], 'bool', some_('s', 's[k][0] == x', 'k'))
    from_ = all_('result', 'FROM(%s, result[i])' % o)
    c.add(Contract(EVA + '._remove_overlapped', [eva, (cs, SC)], returns=LRS, paths=True, requires=[all_(o, spans(o + '[i][0]'))], ensures=[
        from_, 'APART(result)', 'SORTED(result)', all_(o, 'SERVED(result, %s[i][0])' % o)]))
    c.loops[EVA + '._remove_overlapped'] = [
        Loop([all_('sorted_', 'sorted_[i] in ' + o), all_('best', 'FROM(%s, best[i])' % o), disj('best'),
              'forall(lambda i, j: implies(0 <= i < len(best) and 0 <= j < len(sorted_), not %s))' % over('best[i]', 'sorted_[j][0]'),
              all_(o, '%s[c] in sorted_ or SERVED(best, %s[c][0])' % (o, o), 'c')], types={'best': LRS, 'sorted_': SC}),
        Loop([P + ' <= len(sorted_)',
              'forall(lambda x: implies(0 <= x and x < %s, sorted_[x] == %s[x]))' % (P, S0),
              'forall(lambda x: implies(%s <= x and x < len(sorted_), not (%s)))' % (P, x.format('sorted_[x]')),
              'forall(lambda x: implies(0 <= x and x < len(sorted_), sorted_[x] in %s))' % S0,
              'forall(lambda y: implies(%s <= y and y < len(%s) and not (%s), %s))' % (P, S0, x.format(S0 + '[y]'), '%s[y] in sorted_' % S0)])]
    c.fn('CHOSEN', [('words', LRS), ('cand', LRS)], 'bool', all_('words', 'HAS(cand, words[i])') + ' and ' + all_('cand', 'SERVED(words, cand[i])'))
    c.add(Contract(EVA + '.select_best', [eva, ('candidates', LRS)], returns=LRS, requires=[all_('candidates', spans('candidates[i]'))], ensures=['CHOSEN(result, candidates)', 
        all_('result', 'HAS(candidates, result[i])'), 'APART(result)', 'SORTED(result)', all_('candidates', 'SERVED(result, candidates[i])')]))
    # filling: the chosen words and the stretches between them tile the eojeol
    po = v['p']
    word = lambda r, t='token': 'SPANS(%s, %s) and %s.l_tag is not None' % (r, t, r)
    bare = lambda r, t='token': '({0}.l_tag is None and {0}.r_tag is None and {0}.m == {0}.e and SPANS({0}, {1}))'.format(r, t)
    ok = [all_('words', word('words[i]')), 'APART(words)', 'SORTED(words)']
    ws = ('words', LRS)
    c.fn('BARE', [('r', 'LR'), ('t', 'str')], 'bool', bare('r', 't'))
    c.fn('STARTS', [('s', LRS), ('b', 'int')], 'bool', some_('s', 's[i].b == b'))
    c.fn('ENDS', [('s', LRS), ('b', 'int')], 'bool', some_('s', 's[i].e == b'))
    for f, a in (('STARTS', 'b'), ('ENDS', 'e')):
        c.lemma(f, [('s', LRS), ('x', 'LR'), ('b', 'int')], [], ['%s(s + [x], b) == (%s(s, b) or x.%s == b)' % (f, f, a)], trig=['%s(s + [x], b)' % f])
        c.lemma(f + 's', [('s', LRS), ('t', LRS), ('b', 'int')], [all_('s', 's[i] in t'), '%s(s, b)' % f], ['%s(t, b)' % f], trig=['%s(t, b), len(s)' % f])
        c.lemma(f + 'cat', [('s', LRS), ('t', LRS), ('b', 'int')], [], ['%s(s + t, b) == (%s(s, b) or %s(t, b))' % (f, f, f)], trig=['%s(s + t, b)' % f])
    c.fn('CROSS', [('s', LRS), ('t', LRS)], 'bool', 'forall(lambda i, j: implies(0 <= i < len(s) and 0 <= j < len(t), s[i].e <= t[j].b or t[j].e <= s[i].b))')
    c.lemma('crosscat', [('a', LRS), ('s', LRS), ('t', LRS)], [], ['CROSS(a, s + t) == (CROSS(a, s) and CROSS(a, t))'], trig=['CROSS(a, s + t)'])
    c.lemma('crosscat2', [('a', LRS), ('s', LRS), ('t', LRS)], [], ['CROSS(s + t, a) == (CROSS(s, a) and CROSS(t, a))'], trig=['CROSS(s + t, a)'])
    c.lemma('apartcat', [('s', LRS), ('t', LRS)], [], ['APART(s + t) == (APART(s) and APART(t) and CROSS(s, t))'], trig=['s + t'])
    c.fn('NEXT', [('r', LRS), ('n', 'int')], 'bool', all_('r', '0 <= r[i].b and r[i].b < r[i].e and r[i].e <= n and implies(r[i].e < n, STARTS(r, r[i].e))'))
    c.fn('TILES', [('r', LRS), ('n', 'int')], 'bool', 'len(r) > 0 and r[0].b == 0 and r[len(r) - 1].e == n and forall(lambda i: implies(0 <= i < len(r) - 1, r[i].e == r[i + 1].b))')
    c.lemma('tiling', [('r', LRS), ('n', 'int')], ['len(r) > 0', 'APART(r)', 'NEXT(r, n)', 'SORTED(r)', 'STARTS(r, 0)'], ['TILES(r, n)'], trig=['TILES(r, n)'])
    c.fn('GAP', [('x', 'LR'), ('words', LRS), ('t', 'str')], 'bool', 'BARE(x, t) and (x.b == 0 or ENDS(words, x.b)) and (x.e == len(t) or STARTS(words, x.e))')
    c.fn('PART', [('r', LRS), ('words', LRS), ('t', 'str')], 'bool', all_('r', '(HAS(words, r[i]) or GAP(r[i], words, t))'), hidden=True)
    c.lemma('partpush', [('s', LRS), ('x', 'LR'), ('words', LRS), ('t', 'str')], [], ['PART(s + [x], words, t) == (PART(s, words, t) and (HAS(words, x) or GAP(x, words, t)))'], trig=['PART(s + [x], words, t)'], pull=True)
    c.lemma('partnone', [('words', LRS), ('t', 'str')], [], ['PART([], words, t)'], trig=['PART([], words, t)'])
    c.lemma('partself', [('words', LRS), ('t', 'str')], [], ['PART(words, words, t)'], trig=['PART(words, words, t)'])
    c.lemma('partcat', [('s', LRS), ('r', LRS), ('words', LRS), ('t', 'str')], [], ['PART(s + r, words, t) == (PART(s, words, t) and PART(r, words, t))'], trig=['PART(s + r, words, t)'])
    c.lemma('partsub', [('s', LRS), ('r', LRS), ('words', LRS), ('t', 'str')], [all_('s', 's[i] in r'), 'PART(r, words, t)'], ['PART(s, words, t)'], trig=['PART(s, words, t), PART(r, words, t)'])
    c.lemma('partsort', [('s', LRS), ('a', LRS), ('r', LRS), ('words', LRS), ('t', 'str')], [all_('s', 's[i] in a + r'), 'PART(a, words, t)', 'PART(r, words, t)'], ['PART(s, words, t)'], trig=['PART(s, words, t), a + r'])
    c.fn('KEPT', [('r', LRS), ('words', LRS)], 'bool', all_('words', 'HAS(r, words[i])'))
    c.lemma('keptcat', [('s', LRS), ('r', LRS)], [], ['KEPT(s + r, s)'], trig=['KEPT(s + r, s)'])
    c.lemma('keptsub', [('s', LRS), ('r', LRS), ('words', LRS)], [all_('r', 'r[i] in s'), 'KEPT(r, words)'], ['KEPT(s, words)'], trig=['KEPT(s, words), KEPT(r, words)'])
    one = lambda b, e: ['GAP(result, words, token)', 'BARE(result, token) and result.b == %s and result.e == %s' % (b, e)]
    c.add(Contract(POST + '._add_first_subword', [po, tok, ws], returns='LR', requires=ok + ['len(words) > 0', 'words[0].b > 0'], ensures=one('0', 'words[0].b')))
    c.add(Contract(POST + '._add_last_subword', [po, tok, ws, ('n', 'int')], returns='LR', requires=ok + ['n == len(token)', 'len(words) > 0', 'words[len(words) - 1].e < n'], ensures=one('words[len(words) - 1].e', 'n')))
    next_ = lambda s, n='len(words) - 1': 'forall(lambda i: implies(0 <= i < %s and words[i].e < words[i + 1].b, STARTS(%s, words[i].e)))' % (n, s)
    gap = lambda s: all_(s, 'BARE({0}[i], token) and ENDS(words, {0}[i].b) and STARTS(words, {0}[i].e)'.format(s))
    c.add(Contract(POST + '._add_inter_subwords', [po, tok, ws], returns=LRS, paths=True, requires=ok, ensures=['PART(result, words, token)', gap('result'), 'APART(result)', 'CROSS(words, result)', next_('result')]))
    c.loops[POST + '._add_inter_subwords'] = [Loop(['PART(adds, words, token)', gap('adds'), 'APART(adds)', 'CROSS(words, adds)', next_('adds', '_i'), all_('adds', 'implies(_i < len(words), adds[i].e <= words[_i].b)')], types={'adds': LRS})]
    # the words and, between them, exactly the stretches they leave
    c.add(Contract(POST + '.postprocess', [po, tok, ws], returns=LRS, paths=True, requires=ok + ['len(token) > 0'], chain=True, ensures=['len(result) > 0', 'SORTED(result)', 'APART(result)', 'NEXT(result, len(token))', 'STARTS(result, 0)', 'TILES(result, len(token))', 'PART(result, words, token)', 'KEPT(result, words)']))
    # one eojeol: its records tile it, the tagged ones are sanctioned, the others are the stretches between tagged ones, and nothing taggable is left out
    for f, a in (('STARTT', 'b'), ('ENDT', 'e')):
        c.fn(f, [('r', LRS), ('b', 'int')], 'bool', some_('r', 'r[i].l_tag is not None and r[i].%s == b' % a))
        c.lemma(f, [('r', LRS), ('words', LRS), ('b', 'int')], ['KEPT(r, words)', all_('words', 'words[i].l_tag is not None'), f[:-1] + 'S(words, b)'], ['%s(r, b)' % f], trig=['%s(r, b), KEPT(r, words)' % f])
    c.fn('COVERS', [('r', LRS), ('x', 'LR')], 'bool', some_('r', 'r[i].l_tag is not None and ' + over('r[i]', 'x')))
    W = [('d', PD), ('lt', 'set[str]'), ('tm', TM)]
    c.fn('SOUND', W + [('x', 'LR'), ('r', LRS), ('t', 'str')], 'bool', 'SPANS(x, t) and SANCTIONED(d, lt, tm, x) or BARE(x, t) and (x.b == 0 or ENDT(r, x.b)) and (x.e == len(t) or STARTT(r, x.e))')
    c.fn('PIECES', W + [('r', LRS), ('t', 'str')], 'bool', 'TILES(r, len(t)) and ' + all_('r', 'SOUND(d, lt, tm, r[i], r, t)') + ' and forall(lambda x: implies(WANTED(d, lt, tm, x, t), COVERS(r, x)), x="LR")')
    PR = 'list[tup[str,opt[str]]]'
    c.fn('PAIRS', [('r', LRS), ('n', 'int')], PR, 'ite(n <= 0, [], PAIRS(r, n - 1) + ite(r[n - 1].l != "", [(r[n - 1].l, r[n - 1].l_tag)], []) + ite(r[n - 1].r != "", [(r[n - 1].r, r[n - 1].r_tag)], []))')
    c.fn('TEXT', [('p', PR), ('n', 'int')], 'str', 'ite(n <= 0, "", TEXT(p, n - 1) + p[n - 1][0])')
    c.fn('WORDSOF', W + [('p', PR), ('t', 'str')], 'bool', 'exists(lambda r: PIECES(d, lt, tm, r, t) and p == PAIRS(r, len(r)), r="list[LR]")', hidden=True)
    A = lambda p: 'TEXT(%s, len(%s))' % (p, p)
    c.lemma('textcat1', [('p', PR), ('q', PR), ('n', 'int')], ['n <= len(p)'], ['TEXT(p + q, n) == TEXT(p, n)'], measure='n', hints=['implies(n > 0, (p + q)[n - 1] == p[n - 1])', 'implies(n > 0, TEXT(p + q, n - 1) == TEXT(p, n - 1))'], trig=['TEXT(p + q, n)'])
    c.lemma('textcat2', [('p', PR), ('q', PR), ('k', 'int')], ['0 <= k <= len(q)'], ['TEXT(p + q, len(p) + k) == %s + TEXT(q, k)' % A('p')], measure='k', hints=['implies(k > 0, (p + q)[len(p) + (k - 1)] == q[k - 1])', 'implies(k > 0, TEXT(p + q, len(p) + (k - 1)) == %s + TEXT(q, k - 1))' % A('p')], export=['textcat'])
    c.lemma('textcat', [('p', PR), ('q', PR)], [], ['%s == %s + %s' % (A('(p + q)'), A('p'), A('q'))], hints=['TEXT(p + q, len(p) + len(q)) == %s + %s' % (A('p'), A('q'))], trig=[A('(p + q)')])
    c.lemma('textpush1', [('p', PR), ('x', PR[5:-1]), ('n', 'int')], ['n <= len(p)'], ['TEXT(p + [x], n) == TEXT(p, n)'], measure='n', hints=['implies(n > 0, (p + [x])[n - 1] == p[n - 1])', 'implies(n > 0, TEXT(p + [x], n - 1) == TEXT(p, n - 1))'], export=['textpush'])
    c.lemma('textpush', [('p', PR), ('x', PR[5:-1])], [], ['%s == %s + x[0]' % (A('(p + [x])'), A('p'))], hints=['TEXT(p + [x], len(p)) == TEXT(p, len(p))', 'TEXT(p + [x], len(p) + 1) == TEXT(p + [x], len(p)) + x[0]'], trig=[A('(p + [x])')])
    R = 'r[k - 1]'
    c.lemma('text', [('r', LRS), ('t', 'str'), ('k', 'int')], ['1 <= k <= len(r)', 'TILES(r, len(t))', all_('r', 'SPANS(r[i], t)')], [A('PAIRS(r, k)') + ' == t[:r[k - 1].e]'], measure='k', trig=['PAIRS(r, k), SPANS(r[k - 1], t)'],
            hints=['implies(k > 1, %s == t[:r[(k - 1) - 1].e])' % A('PAIRS(r, k - 1)'), 'implies(k > 1, r[k - 2].e == r[k - 1].b)', '%s == t[:r[k - 1].b]' % A('PAIRS(r, k - 1)'), 't[:r[k - 1].m] == t[:r[k - 1].b] + r[k - 1].l', 't[:r[k - 1].e] == t[:r[k - 1].m] + r[k - 1].r', '%s == %s + r[k - 1].l + r[k - 1].r' % (A('PAIRS(r, k)'), A('PAIRS(r, k - 1)'))])
    tg = v['s']
    DD = D('self.generator')
    PP = 'list[%s]' % PR
    given = ['TILES(r, len(t))', 'PART(r, words, t)', 'KEPT(r, words)', 'CHOSEN(words, cand)', 'FULL(d, lt, tm, cand, t)']
    c.lemma('pieces', W + [('r', LRS), ('words', LRS), ('cand', LRS), ('t', 'str')], given, ['PIECES(d, lt, tm, r, t)'], export=['wordsof'], trig=['PIECES(d, lt, tm, r, t), PART(r, words, t), CHOSEN(words, cand)'])
    c.lemma('wordsof', W + [('r', LRS), ('words', LRS), ('cand', LRS), ('t', 'str'), ('p', PR)], given + ['p == PAIRS(r, len(r))'], ['WORDSOF(d, lt, tm, p, t)', A('p') + ' == t'], hints=['PIECES(d, lt, tm, r, t)', 't[:r[len(r) - 1].e] == t'], pull=True,
            trig=['WORDSOF(d, lt, tm, p, t), PART(r, words, t), CHOSEN(words, cand)'])
    c.fn('FLATP', [('ps', PP), ('n', 'int')], PR, 'ite(n <= 0, [], FLATP(ps, n - 1) + ps[n - 1])')
    each = lambda ps, n: 'forall(lambda k: implies(0 <= k < %s, WORDSOF(%s, %s[k], sentence.split()[k]) and TEXT(%s[k], len(%s[k])) == sentence.split()[k]))' % (n, DD, ps, ps, ps)
    eachtok = lambda ps: 'len({0}) == len(sentence.split()) and {1}'.format(ps, each(ps, 'len(%s)' % ps))
    flat = lambda r: 'exists(lambda ps: %s and %s == FLATP(ps, len(ps)), ps="%s")' % (eachtok('ps'), r, PP)
    SR = 'list[list[tup[LR,real]]]'
    c.add(Contract(TAG + '.tag', [tg, ('sentence', 'str'), ('flatten', 'bool'), ('debug', 'bool')], split=['flatten', 'debug'], ensures=[
        'implies(not flatten and not debug, %s)' % eachtok('result'), 'implies(flatten and not debug, %s)' % flat('result'),
        'implies(not flatten and debug, %s)' % eachtok('result[0]'), 'implies(flatten and debug, %s)' % flat('result[0]')]))
    c.loops[TAG + '.tag'] = [Loop(['len(sent_) == _i', each('sent_', '_i')], types={'sent_': PP, 'debug_': SR}, name='t'), Loop(['postprocessed_ == PAIRS(postprocessed, _i)'], types={'postprocessed_': PR})]
    c.comps[TAG + '.tag'] = (2, {1: [Loop(['_out == FLATP(sent_, _i)'], types={'_out': PR}, name='w'), Loop(['_out == FLATP(sent_, _i_w) + words[:_i]'], types={'_out': PR})]})
    # construction keeps what is given
    DN = {'ltags': "{'Noun', 'Adjective', 'Verb', 'Adverb', 'Exclamation'}"}
    same = lambda a, b: 'forall(lambda t: iff(t in {0}, t in {1}) and implies(t in {1}, {0}[t] == {1}[t]), t="str")'.format(a, b)
    c.add(Contract(GEN + '.__init__', [g, ('dictionary', 'obj ' + DIC), ('ltags', 'set[str]'), ('templates', TM)], alts={'ltags': ['none', 'set[str]'], 'templates': ['none', TM]}, shares=True, ensures=[
        'self.dictionary is dictionary', 'implies(ltags is not None and exists(lambda t: t in ltags, t="str"), forall(lambda t: iff(t in self.ltags, t in ltags), t="str"))',
        'implies(templates is not None and exists(lambda t: t in templates, t="str"), %s)' % same('self.templates', 'templates')]))
    c.add(Contract(EVA + '.__init__', [eva, ('weights', 'list[tup[str,real]]'), ('preference', 'dict[str,dict[str,real]]')], alts={'weights': ['none', 'list[tup[str,real]]'], 'preference': ['none', 'dict[str,dict[str,real]]']}, shares=True,
        paths=True, requires=['weights is None or len(weights) == 0 or len(weights) >= 7'], ensures=[]))
    c.add(Contract(T + '_tagger:BaseTagger.__init__', [tg, ('generator', 'obj ' + GEN), ('evaluator', 'obj ' + EVA), ('postprocessor', 'obj ' + POST)], ensures=[
        'self.generator is generator and self.evaluator is evaluator and self.postprocessor is postprocessor and self.dictionary is generator.dictionary']))
    # the whole-eojeol matcher: every candidate tiles the eojeol with sanctioned words
    EG, EE = T + '_template:EojeolTemplateMatcher', T + '_evaluator:SimpleEojeolEvaluator'
    c.cls(EG, {'dictionary': 'obj ' + DIC, 'single_tags': 'list[str]', 'lr_templates': 'list[tup[str,str]]'})
    c.cls(EE, {'weights': 'list[tup[str,real]]'}, ['len(self.weights) >= 8'])
    CS = 'list[list[LR]]'
    eg, ej = ('self', 'obj ' + EG), ('eojeol', 'str')
    PDQ = 'self.dictionary.pos_dict'
    c.fn('ALONE', [('d', PD), ('r', 'LR'), ('tag', 'str')], 'bool', 'r.l_tag == tag and r.r_tag is None and r.m == r.e and KNOWN(d, r.l, tag)')
    c.fn('CHAIN', [('d', PD), ('r', LRS), ('t', 'str'), ('tag', 'str')], 'bool', all_('r', 'SPANS(r[i], t) and ALONE(d, r[i], tag)'))
    c.lemma('chain', [('d', PD), ('r', LRS), ('x', 'LR'), ('t', 'str'), ('tag', 'str')], [], ['CHAIN(d, r + [x], t, tag) == (CHAIN(d, r, t, tag) and SPANS(x, t) and ALONE(d, x, tag))'], trig=['CHAIN(d, r + [x], t, tag)'])
    c.lemma('tilespush', [('r', LRS), ('x', 'LR'), ('n', 'int')], ['TILES(r, x.b) or len(r) == 0 and x.b == 0', 'x.e == n'], ['TILES(r + [x], n)'], trig=['TILES(r + [x], n)'])
    # a candidate: one word with a single tag (or none, when there is no such tag), a pair of a template, or a compound of nouns or adverbs
    c.fn('SINGLE', [('d', PD), ('ts', 'list[str]'), ('r', LRS)], 'bool', 'len(r) == 1 and r[0].l_tag is not None and some(r[0].l_tag) in ts and ALONE(d, r[0], some(r[0].l_tag))')
    c.fn('UNTAGGED', [('d', PD), ('ts', 'list[str]'), ('r', LRS), ('t', 'str')], 'bool', 'len(r) == 1 and BARE(r[0], t) and forall(lambda x: implies(x in ts, not KNOWN(d, t, x)), x="str")')
    c.fn('TEMPLATE', [('d', PD), ('lr', 'list[tup[str,str]]'), ('r', LRS)], 'bool', 'len(r) == 1 and r[0].l_tag is not None and r[0].r_tag is not None and (some(r[0].l_tag), some(r[0].r_tag)) in lr and r[0].m < r[0].e and KNOWN(d, r[0].l, some(r[0].l_tag)) and KNOWN(d, r[0].r, some(r[0].r_tag))')
    c.fn('EOJ', [('d', PD), ('ts', 'list[str]'), ('lr', 'list[tup[str,str]]'), ('r', LRS), ('t', 'str')], 'bool', 'TILES(r, len(t)) and %s and (SINGLE(d, ts, r) or UNTAGGED(d, ts, r, t) or TEMPLATE(d, lr, r) or CHAIN(d, r, t, "Noun") or CHAIN(d, r, t, "Adverb"))' % all_('r', 'SPANS(r[i], t)'))
    c.add(Contract(EG + '._decompose_compound', [eg, ej, ('tag', 'str')], returns=LRS, ensures=['implies(len(result) > 0, TILES(result, len(eojeol)) and CHAIN(%s, result, eojeol, tag))' % PDQ]))
    body = ['(len(words) == 0 and b == 0 or TILES(words, b))', 'CHAIN(%s, words, eojeol, tag)' % PDQ, '0 <= b <= n']
    c.loops[EG + '._decompose_compound'] = [Loop(body, types={'words': LRS}), Loop(body + ['implies(not next_round, e == b + 1)'], types={'words': LRS})]
    oke = lambda s, t='eojeol': all_(s, 'EOJ(%s, self.single_tags, self.lr_templates, %s[i], %s)' % (PDQ, s, t))
    c.add(Contract(EG + '.generate', [eg, ej], returns=CS, paths=True, requires=['len(eojeol) > 0'], ensures=['len(result) > 0', oke('result')]))
    X = {'candidates': CS}
    c.loops[EG + '.generate'] = [Loop([oke('candidates'), 'implies(len(candidates) == 0, forall(lambda k: implies(0 <= k < _i, not _it(k) in self.single_tags)))'], types=X), Loop([oke('candidates'), 'len(candidates) > 0'], types=X), Loop([oke('candidates'), 'len(candidates) > 0'], types=X)]
    ee = ('self', 'obj ' + EE)
    c.add(Contract(EE + '.evaluate', [ee, ('candidate', LRS)], returns='real', requires=['len(candidate) > 0']))
    c.add(Contract(T + '_evaluator:BaseEvaluator.select_best', [ee, ('candidates', CS)], returns='opt[%s]' % LRS, paths=True, requires=[all_('candidates', 'len(candidates[i]) > 0')],
                   ensures=['implies(len(candidates) > 0, result is not None and %s)' % some_('candidates', 'some(result) == candidates[i]')]))
    return c
