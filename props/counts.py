"""Contracts of EojeolCounter and LRGraph, shared by C18, C19 and C20 (each proves its own part and uses the others)."""
from .common import *
from pyvc.exec import FunV
from pyvc.spec import FUN
from pyvc.theory import STR, LIST, DICT, INT

U = 'soynlp.utils.utils:'
E, G = U + 'EojeolCounter', U + 'LRGraph'
CNT, LR = 'dict[str,int]', 'dict[str,dict[str,int]]'
w_ = lambda b: 'forall(lambda w: %s, w="str")' % b
lr_ = lambda b: 'forall(lambda l, r: %s, l="str", r="str")' % b
ab_ = lambda b: 'forall(lambda a, b: %s, a="str", b="str")' % b
has = lambda g, l='l', r='r': '({1} in {0} and {2} in {0}[{1}])'.format(g, l, r)
same = lambda a, b: [lr_('iff(%s, %s)' % (has(a), has(b))), lr_('implies(%s, %s[l][r] == %s[l][r])' % (has(b), a, b))]
norow = lambda g: 'forall(lambda l: implies(l in {0}, exists(lambda r: r in {0}[l], r="str")), l="str")'.format(g)
pos = lambda g: lr_('implies(%s, %s[l][r] > 0)' % (has(g), g))
WELL = lambda g: [pos(g), norow(g)]
# both directions hold the same counts
BOTH = [lr_('implies(r != "", iff(%s, %s))' % (has('self._lr'), has('self._rl', 'r', 'l'))),
        lr_('implies(r != "" and %s, self._lr[l][r] == self._rl[r][l])' % has('self._lr')),
        '"" not in self._rl', norow('self._rl')]


def counter(c, proved):
    asm = False if proved else 'C18'
    pre = c.fn('PRE', [('s', 'str')], 'str')               # an arbitrary preprocessing function
    fun = lambda ex, st: FunV(FUN([STR], STR), pre.f)
    c.cls(E, {'min_count': 'int', 'max_length': 'int', 'filtering_checkpoint': 'int', 'verbose': 'bool', '_coverage': 'real', 'preprocess': fun, '_counter': CNT, '_count_sum': 'int'},
          ['0 <= self._coverage and self._coverage <= 1', w_('implies(w in self._counter, self._counter[w] > 0)'), 'sum(self._counter.values()) <= self._count_sum'])
    # occurrences of w among the first n words; among the words of the first n sentences
    c.fn('WC', [('ws', 'list[str]'), ('n', 'int'), ('w', 'str')], 'int', 'ite(n <= 0, 0, WC(ws, n - 1, w) + ite(ws[n - 1] == w, 1, 0))')
    c.fn('SC', [('ss', 'list[str]'), ('n', 'int'), ('w', 'str')], 'int', 'ite(n <= 0, 0, SC(ss, n - 1, w) + WC(PRE(ss[n - 1]).split(), len(PRE(ss[n - 1]).split()), w))')
    self = ('self', 'obj ' + E)
    N = 'SC(sents, %s, w)'
    cnt = lambda n: [w_('iff(w in _counter, {0} > 0 and len(w) <= self.max_length) and implies(w in _counter, _counter[w] == {0}) and {0} >= 0'.format(n))]
    exact = lambda d: [w_('iff(w in {1}, {0} > 0 and {0} >= self.min_count and len(w) <= self.max_length)'.format(N % 'len(sents)', d)), w_('implies(w in {1}, {1}[w] == {0})'.format(N % 'len(sents)', d))]
    S = 'forall(lambda s: self.preprocess(s) == PRE(s), s="str")'
    c.add(Contract(E + '._counting_from_sents', [self, ('sents', 'list[str]')], requires=['self.filtering_checkpoint <= 0', 'len(sents) > 0', S], returns=CNT, assumed=asm, noinv=True,
                   ensures=exact('result') + [w_('implies(w in result, result[w] > 0)')]))
    c.loops[E + '._counting_from_sents'] = [Loop(cnt(N % '_i'), name='s'), Loop(cnt('(%s + WC(sent.split(), _i, w))' % (N % '_i_s')))]
    c.add(Contract(E + '.__init__', [self, ('sents', 'list[str]'), ('min_count', 'int'), ('max_length', 'int'), ('filtering_checkpoint', 'int'), ('verbose', 'bool'), ('preprocess', fun)], assumed=asm,
                   alts={'sents': ['none', 'list[str]'], 'preprocess': ['none', fun]},
                   requires=['implies(preprocess is None, forall(lambda s: PRE(s) == s, s="str"))', 'filtering_checkpoint <= 0', 'sents is None or len(sents) > 0'],
                   ensures=['implies(sents is not None, %s)' % x for x in exact('self._counter')] + ['implies(sents is None, %s)' % w_('w not in self._counter'),
                            'self._coverage == 0', 'self._count_sum == sum(self._counter.values())', 'self.min_count == min_count', 'self.max_length == max_length']))
    get = 'result == (self._counter[%s] if %s in self._counter else 0)'
    c.add(Contract(E + '.__getitem__', [self, ('eojeol', 'str')], returns='int', assumed=asm, ensures=[get % ('eojeol', 'eojeol')]))
    c.add(Contract(E + '.get_eojeol_count', [self, ('eojeol', 'str')], returns='int', assumed=asm, ensures=[get % ('eojeol', 'eojeol')]))
    c.add(Contract(E + '.__len__', [self], returns='int', assumed=asm, ensures=['result == len(self._counter)']))
    c.add(Contract(E + '.num_of_unique_uncovered_eojeols', [self], returns='int', assumed=asm, ensures=['result == len(self._counter)']))
    c.add(Contract(E + '.num_of_uncovered_eojeols', [self], returns='int', assumed=asm, ensures=['result == sum(self._counter.values())']))
    c.add(Contract(E + '.coverage', [self], returns='real', assumed=asm, ensures=['result == self._coverage', '0 <= result <= 1']))
    c.add(Contract(E + '.get_uncovered_eojeols', [self, ('min_count', 'int')], returns='dict[str,int]', assumed=asm, ensures=[w_('iff(w in result, w in self._counter and self._counter[w] >= min_count)'), w_('implies(w in result, result[w] == self._counter[w])')]))
    c.add(Contract(E + '.remove_covered_eojeols', [self, ('eojeols', 'set[str]')], assumed=asm, alts={'eojeols': ['set[str]', 'list[str]', 'dict[str,int]']}, modifies=['self._counter', 'new self._counter', 'self._coverage'],
                   requires=['self._count_sum > 0'], ensures=[
        w_('iff(w in self._counter, w in old(self._counter) and w not in eojeols)'), w_('implies(w in self._counter, self._counter[w] == old(self._counter)[w])'),
        'self._coverage == 1 - sum(self._counter.values()) / self._count_sum', '0 <= self._coverage <= 1']))
    return c


def graph(c, proved, conv='C18'):
    """LRGraph.  The maps seen from the left and from the right, and the map as constructed."""
    asm = False if proved else 'C19'
    c.cls(G, {'l_max_length': 'int', 'r_max_length': 'int', '_lr': LR, '_rl': LR, '_lr_origin': LR}, WELL('self._lr') + BOTH + WELL('self._lr_origin') + ['self.l_max_length > 1', 'self.r_max_length > 0'])
    c.hints['*'] = (STR, DICT(STR, INT))
    if 'WC' not in c.specfns:
        c.fn('WC', [('ws', 'list[str]'), ('n', 'int'), ('w', 'str')], 'int', 'ite(n <= 0, 0, WC(ws, n - 1, w) + ite(ws[n - 1] == w, 1, 0))')
    c.fn('GC', [('ss', 'list[str]'), ('n', 'int'), ('w', 'str')], 'int', 'ite(n <= 0, 0, GC(ss, n - 1, w) + WC(ss[n - 1].split(), len(ss[n - 1].split()), w))')
    self = ('self', 'obj ' + G)
    adm = 'l != "" and len(l) <= self.l_max_length and len(r) <= self.r_max_length'
    sizes = ['l_max_length > 1', 'r_max_length > 0']
    upto = lambda d, n: [lr_('iff(%s, %s and %s > 0) and %s >= 0' % (has(d), adm, n, n)), lr_('implies(%s, %s[l][r] == %s)' % (has(d), d, n))]
    n = 'GC(sents, %s, l + r)'
    c.add(Contract(G + '._construct_graph', [self, ('sents', 'list[str]')], returns=LR, assumed=asm, noinv=True, requires=['self.l_max_length > 1'], ensures=upto('result', n % 'len(sents)') + WELL('result')))
    c.loops[G + '._construct_graph'] = [
        Loop(upto('lrgraph', n % '_i') + [norow('lrgraph')], name='s'),
        Loop(upto('lrgraph', '(%s + WC(sent.split(), _i, l + r))' % (n % '_i_s')) + [norow('lrgraph')], name='w'),
        Loop(upto('lrgraph', '(%s + WC(sent.split(), _i_w, l + r) + (1 if l + r == word and len(l) <= _i else 0))' % (n % '_i_s')) + [norow('lrgraph')])]
    both = [lr_('implies(r != "", iff(%s, %s))' % (has('result[0]'), has('result[1]', 'r', 'l'))), lr_('implies(r != "" and %s, result[0][l][r] == result[1][r][l])' % has('result[0]')),
            '"" not in result[1]', norow('result[1]')]
    c.add(Contract(G + '._check_lrgraph', [self, ('lrgraph', LR)], returns='tup[%s,%s]' % (LR, LR), assumed=asm, noinv=True, owns=True, requires=WELL('lrgraph'),
                   ensures=same('result[0]', 'lrgraph') + WELL('result[0]') + both))
    rl = lambda q: [ab_('iff(%s, b != "" and %s and %s)' % (has('rlgraph', 'b', 'a'), has('lrgraph', 'a', 'b'), q)), ab_('implies(%s, rlgraph[b][a] == lrgraph[a][b])' % has('rlgraph', 'b', 'a')), norow('rlgraph')]
    c.loops[G + '._check_lrgraph'] = [Loop(rl('_idx(a) < _i'), name='l'), Loop(rl('(_idx(a, "l") < _i_l or a == l and _idx(b) < _i)'))]
    given = ['lrgraph is None or sents is None or len(sents) == 0', 'implies(lrgraph is not None, %s)' % ' and '.join(WELL('lrgraph'))] + sizes
    c.add(Contract(G + '.__init__', [self, ('lrgraph', LR), ('sents', 'list[str]'), ('l_max_length', 'int'), ('r_max_length', 'int')], assumed=asm, owns=True, paths=True, requires=given,
                   alts={'lrgraph': ['none', LR], 'sents': ['none', 'list[str]']},
                   ensures=['self.l_max_length == l_max_length', 'self.r_max_length == r_max_length'] + ['implies(lrgraph is not None, %s)' % x for x in same('self._lr', 'lrgraph')]
                   + ['implies(sents is not None and lrgraph is None, %s)' % x for x in upto('self._lr', n % 'len(sents)')]
                   + ['implies(lrgraph is None and sents is None, %s)' % lr_('l not in self._lr')] + same('self._lr_origin', 'self._lr')))
    c.add(Contract(G + '.reset_lrgraph', [self], assumed=asm, owns=True, modifies=['self._lr', 'self._rl', 'new self._lr', 'new self._rl'], ensures=same('self._lr', 'self._lr_origin')))
    c.add(Contract(G + '.copy_compatified_lrgraph_origin', [self], returns='obj ' + G, assumed=asm, owns=True, ensures=same('result._lr', 'self._lr_origin') + ['result.l_max_length == self.l_max_length', 'result.r_max_length == self.r_max_length']))
    pair = [('l', 'str'), ('r', 'str'), ('count', 'int')]
    old = lambda k='': '(old(self._lr%s)[a][b] if a in old(self._lr%s) and b in old(self._lr%s)[a] else 0)' % (k, k, k)
    chg = lambda new: [ab_('iff(%s, %s > 0)' % (has('self._lr', 'a', 'b'), new)), ab_('implies(%s, self._lr[a][b] == %s)' % (has('self._lr', 'a', 'b'), new))]
    M = ['self._lr', 'self._rl']
    one = '(count if a == l and b == r else 0)'
    all_ = '(count if a != "" and a + b == eojeol%s else 0)'
    for nm, sg in (('add', '+'), ('remove', '-')):
        c.add(Contract(G + '.%s_lr_pair' % nm, [self] + pair, paths=True, assumed=asm, requires=['count > 0'], modifies=M, ensures=chg('(%s %s %s)' % (old(), sg, one))))
        c.add(Contract(G + '.%s_eojeol' % nm, [self, ('eojeol', 'str'), ('count', 'int')], assumed=asm, requires=['count > 0'], modifies=M, ensures=chg('(%s %s %s)' % (old(), sg, all_ % ''))))
        c.loops[G + '.%s_eojeol' % nm] = [Loop(chg('(%s %s %s)' % (old(), sg, all_ % ' and len(a) <= _i')) + WELL('self._lr') + BOTH)]
    for nm, row in (('get_r', 'self._lr'), ('get_l', 'self._rl')):
        k = 'l' if nm == 'get_r' else 'r'
        R = '(%s[%s] if %s in %s else {})' % (row, k, k, row)
        c.add(Contract(G + '.' + nm, [self, (k, 'str'), ('topk', 'int')], returns='list[tup[str,int]]', assumed=asm, ensures=[
            'forall(lambda i: implies(0 <= i < len(result), %s in %s and result[i][0] in %s[%s] and result[i][1] == %s[%s][result[i][0]] and result[i][1] > 0))' % (k, row, row, k, row, k),
            'forall(lambda i, j: implies(0 <= i and i < j and j < len(result), result[i][0] != result[j][0] and result[i][1] >= result[j][1]))',
            # everything when topk is not positive, otherwise the topk most frequent ones
            'implies(topk > 0, len(result) <= topk)',
            'forall(lambda a: implies({k} in {r} and a in {r}[{k}] and (topk <= 0 or len(result) < topk), exists(lambda i: 0 <= i < len(result) and result[i][0] == a)), a="str")'.format(k=k, r=row),
            'forall(lambda a, j: implies({k} in {r} and a in {r}[{k}] and 0 <= j < len(result) and {r}[{k}][a] > result[j][1], exists(lambda i: 0 <= i < len(result) and result[i][0] == a)), a="str")'.format(k=k, r=row)]))
    return c


def convert(c, proved):
    """EojeolCounter.to_lrgraph"""
    asm = False if proved else 'C18'
    sizes = ['l_max_length > 1', 'r_max_length > 0', w_('implies(w in %s, %s[w] > 0)' % ('counter', 'counter'))]
    adm = lambda d: 'l != "" and len(l) <= l_max_length and len(r) <= r_max_length and not (ignore_one_syllable and len(l + r) == 1) and l + r in %s' % d
    par = [('l_max_length', 'int'), ('r_max_length', 'int'), ('ignore_one_syllable', 'bool')]
    res = lambda g, d, q='': [lr_('iff(%s, %s%s)' % (has(g), adm(d), q)), lr_('implies(%s, %s[l][r] == %s[l + r])' % (has(g), g, d))]
    both = ['result.l_max_length == l_max_length', 'result.r_max_length == r_max_length'] + same('result._lr_origin', 'result._lr')
    self = ('self', 'obj ' + E)
    c.add(Contract(E + '._to_lrgraph', [self, ('counter', CNT)] + par, returns='obj ' + G, assumed=asm, noinv=True, requires=sizes, ensures=res('result._lr', 'counter') + both))
    adm2 = adm('counter').replace('l + r', 'a + b').replace('(l)', '(a)').replace('(r)', '(b)').replace('l !=', 'a !=')
    r2 = lambda q: [ab_('iff(%s, %s and (%s))' % (has('_lrgraph', 'a', 'b'), adm2, q)), ab_('implies(%s, _lrgraph[a][b] == counter[a + b])' % has('_lrgraph', 'a', 'b')), norow('_lrgraph')]
    c.loops[E + '._to_lrgraph'] = [Loop(r2('_idx(a + b) < _i'), name='w'), Loop(r2('_idx(a + b, "w") < _i_w or a + b == eojeol and len(a) <= _i'))]
    c.add(Contract(E + '.to_lrgraph', [self] + par, returns='obj ' + G, assumed=asm, requires=sizes[:2], ensures=res('result._lr', 'self._counter') + both))
