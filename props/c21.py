"""Word extraction: substring counts, scores and thresholds."""
from .common import *
from pyvc import loader
from pyvc.exec import Sym
from pyvc.spec import ALIASES
from pyvc.theory import Ty, REAL

X = 'soynlp.word._word:WordExtractor'
NOTES = ['str.split() is axiomatised: its words are non-empty and hold no whitespace', 'no pruning while training (num_for_pruning=0), progress messages off']
BOUNDED = ['WordExtractor.all_branching_entropy, all_accessor_variety: only their determinism is used; the values are compared with the definition on generated inputs', 'branching_entropy, accessor_variety, save, load: runtime contract only']
CNT = 'dict[str,int]'
w_ = lambda b: 'forall(lambda w: %s, w="str")' % b


def build():
    c = context()
    fl = 'cohesion_forward cohesion_backward left_branching_entropy right_branching_entropy left_accessor_variety right_accessor_variety leftside_frequency rightside_frequency'.split()
    ALIASES['SCORE'] = Ty('tup', ty('tup[real,real,real,real,real,real,int,int]').a, fl, loader.resolve('soynlp.word._word:Scores'))
    c.cls(X, {'max_left_length': 'int', 'max_right_length': 'int', 'min_frequency': 'int', 'L': CNT, 'R': CNT, '_aL': CNT, '_aR': CNT, 'verbose': 'int',
              'min_cohesion_forward': 'real', 'min_cohesion_backward': 'real', 'max_droprate_leftside_frequency': 'real', 'min_left_branching_entropy': 'real', 'min_right_branching_entropy': 'real',
              'min_left_accessor_variety': 'int', 'min_right_accessor_variety': 'int', 'remove_subwords': 'bool'},
          # a word occurs no more often than its first (last) character, so that cohesion is defined
          [w_('implies(w in self.{0}, len(w) >= 1 and self.{0}[w] > 0 and {1} in self.{0} and self.{0}[{1}] >= self.{0}[w])'.format(d, x)) for d, x in (('L', 'w[0]'), ('R', 'w[len(w) - 1]'))])
    self = ('self', 'obj ' + X)
    c.add(Contract('soynlp.utils.utils:get_process_memory', [], returns='real', assumed='it reads the memory use of the process'))
    # one eojeol of two or more characters starts with p / ends with s (a suffix is shorter than the eojeol)
    c.fn('BEG', [('w', 'str'), ('p', 'str')], 'int', 'ite(len(w) >= 2 and 1 <= len(p) <= len(w) and w[:len(p)] == p, 1, 0)')
    c.fn('END', [('w', 'str'), ('p', 'str')], 'int', 'ite(len(w) >= 2 and 1 <= len(p) < len(w) and w[len(w) - len(p):] == p, 1, 0)')
    for f, g, h in (('PC', 'PS', 'BEG'), ('SC', 'SS', 'END')):
        c.fn(f, [('ws', 'list[str]'), ('n', 'int'), ('p', 'str')], 'int', 'ite(n <= 0, 0, %s(ws, n - 1, p) + %s(ws[n - 1], p))' % (f, h))
        c.fn(g, [('ss', 'list[str]'), ('n', 'int'), ('p', 'str')], 'int', 'ite(n <= 0, 0, {1}(ss, n - 1, p) + {0}(ss[n - 1].split(), len(ss[n - 1].split()), p))'.format(f, g))
    for f, g, h, one in (('PC', 'PS', 'BEG', 'p[0]'), ('SC', 'SS', 'END', 'p[len(p) - 1]')):
        c.lemma(h.lower(), [('w', 'str'), ('p', 'str')], ['len(p) >= 1'], ['0 <= {0}(w, p) <= {0}(w, {1})'.format(h, one)], export=[f.lower()], trig=['%s(w, p), %s(w, %s)' % (h, h, one)])
        c.lemma(f.lower(), [('ws', 'list[str]'), ('p', 'str'), ('n', 'int')], ['0 <= n', 'len(p) >= 1'], ['0 <= {0}(ws, n, p) <= {0}(ws, n, {1})'.format(f, one)], measure='n', hints=['implies(n > 0, {0}(ws[n - 1], p) <= {0}(ws[n - 1], {1}))'.format(h, one)], export=[g.lower()], trig=['%s(ws, n, p), %s(ws, n, %s)' % (f, f, one)])
        c.lemma(g.lower(), [('ss', 'list[str]'), ('p', 'str'), ('n', 'int')], ['0 <= n', 'len(p) >= 1'], ['0 <= {0}(ss, n, p) <= {0}(ss, n, {1})'.format(g, one)], measure='n', hints=['implies(n > 0, {0}(ss[n - 1].split(), len(ss[n - 1].split()), p) <= {0}(ss[n - 1].split(), len(ss[n - 1].split()), {1}))'.format(f, one)], trig=['%s(ss, n, p), %s(ss, n, %s)' % (g, g, one)])
    for f, g in (('PC', 'PS'), ('SC', 'SS')):
        c.lemma(f.lower() + '0', [('ws', 'list[str]'), ('p', 'str'), ('n', 'int')], ['len(p) == 0'], ['{0}(ws, n, p) == 0'.format(f)], measure='n', export=[g.lower() + '0'], trig=['%s(ws, n, p)' % f])
        c.lemma(g.lower() + '0', [('ss', 'list[str]'), ('p', 'str'), ('n', 'int')], ['len(p) == 0'], ['{0}(ss, n, p) == 0'.format(g)], measure='n', trig=['%s(ss, n, p)' % g])
    base = lambda d: '(old(self.%s)[w] if cumulate and w in old(self.%s) else 0)' % (d, d)
    had = lambda d: 'cumulate and w in old(self.%s)' % d
    lim = {'L': 'len(w) <= self.max_left_length + 1', 'R': 'len(w) <= self.max_right_length'}
    def cnt(d, n):
        t = '(%s if %s else 0)' % (n, lim[d])
        return [w_('iff(w in self.{d}, {h} or {t} > 0) and implies(w in self.{d}, self.{d}[w] == {b} + {t}) and {n} >= 0'.format(d=d, h=had(d), t=t, b=base(d), n=n))]
    def fin(d, n):
        t = '(%s if %s else 0)' % (n, lim[d])
        return [w_('iff(w in self.{d}, ({h} or {t} > 0) and {b} + {t} >= self.min_frequency) and implies(w in self.{d}, self.{d}[w] == {b} + {t})'.format(d=d, h=had(d), t=t, b=base(d)))]
    D = ['self.L', 'self.R', 'self._aL', 'self._aR']
    c.add(Contract(X + '.train', chain=True, params=[self, ('sents', 'list[str]'), ('num_for_pruning', lambda ex, st: 0), ('cumulate', 'bool')], requires=['len(sents) > 0', 'self.verbose <= 0', 'self.max_left_length >= 1', 'self.max_right_length >= 1'],
                   modifies=['new ' + x for x in D], ensures=fin('L', 'PS(sents, len(sents), w)') + fin('R', 'SS(sents, len(sents), w)')))
    N, M = '(PS(sents, _i_s, w) + PC(sent.split(), %s, w))', '(SS(sents, _i_s, w) + SC(sent.split(), %s, w))'
    inl = 'ite(%s and len(w) <= _i, BEG(word, w), 0)' % 'True'
    inr = 'ite(%s and len(w) <= _i, END(word, w), 0)' % 'True'
    c.loops[X + '.train'] = [Loop(cnt('L', 'PS(sents, _i, w)') + cnt('R', 'SS(sents, _i, w)'), name='s'),
        Loop(cnt('L', N % '_i') + cnt('R', M % '_i'), name='w'),
        Loop(cnt('L', '(%s + %s)' % (N % '_i_w', inl)) + cnt('R', M % '_i_w')),
        Loop(cnt('L', N % '(_i_w + 1)') + cnt('R', '(%s + %s)' % (M % '_i_w', inr))),
        Loop([]), Loop([]), Loop([])]
    pw = c.fn('POW', [('x', 'real'), ('y', 'real')], 'real')
    c.externs['numpy.power'] = lambda ex, a, kw, st, node: Sym(REAL, pw.f(ex.pack(a[0], REAL, st), ex.pack(a[1], REAL, st)))
    DK = [('d', CNT), ('w', 'str')]
    # how well the word holds together, seen from the character at one end
    c.fn('COH', DK + [('x', 'str')], 'real', 'ite(len(w) <= 1 or w not in d or d[w] == 0, 0.0, POW(d[w] / d[x], 1 / (len(w) - 1)))')
    c.fn('FREQ', DK, 'int', 'ite(w in d, d[w], 0)')
    coh = lambda w: '(COH(self.L, {0}, {0}[0]), COH(self.R, {0}, {0}[len({0}) - 1]))'.format(w)
    word = lambda w: '({0} in self.L and len({0}) <= self.max_left_length or {0} in self.R and len({0}) <= self.max_right_length)'.format(w)
    c.add(Contract(X + '.frequency', [self, ('word', 'str')], returns='tup[int,int]', ensures=['result[0] == FREQ(self.L, word) and result[1] == FREQ(self.R, word)']))
    c.add(Contract(X + '.words', [self], returns='set[str]', ensures=[w_('iff(w in result, %s)' % word('w'))]))
    c.add(Contract(X + '.cohesion_score', [self, ('word', 'str')], returns='tup[real,real]', paths=True, ensures=['implies(len(word) >= 1, result == %s)' % coh('word'), 'implies(len(word) == 0, result == (0.0, 0.0))']))
    RR = 'dict[str,tup[real,real]]'
    c.add(Contract(X + '.all_cohesion_scores', [self], returns=RR, requires=['self.verbose <= 0'], ensures=[w_('iff(w in result, {0} and {1} != (0.0, 0.0)) and implies(w in result, result[w] == {1})'.format(word('w'), coh('w')))]))
    c.loops[X + '.all_cohesion_scores'] = [Loop([w_('iff(w in cps, {0} and _idx(w) < _i and {1} != (0.0, 0.0)) and implies(w in cps, cps[w] == {1})'.format(word('w'), coh('w')))], types={'cps': RR})]
    # the other scores: uninterpreted functions of what was counted
    CS = [('L', CNT), ('R', CNT), ('aL', CNT), ('aR', CNT)]
    c.fn('BE', CS + [('w', 'str')], 'tup[real,real]')
    c.fn('AV', CS + [('w', 'str')], 'tup[int,int]')
    cs = 'self.L, self.R, self._aL, self._aR, '
    c.add(Contract(X + '.all_branching_entropy', [self], returns=RR, assumed='bounded', ensures=[w_('BE(%sw) == (result[w] if w in result else (0.0, 0.0))' % cs)]))
    c.add(Contract(X + '.all_accessor_variety', [self], returns='dict[str,tup[int,int]]', assumed='bounded', ensures=[w_('AV(%sw) == (result[w] if w in result else (0, 0))' % cs)]))
    # every score of a word, as named in the result
    sc = lambda d, w: ('({d}[{w}].cohesion_forward, {d}[{w}].cohesion_backward) == {coh} and ({d}[{w}].left_branching_entropy, {d}[{w}].right_branching_entropy) == BE({cs}{w}) and ({d}[{w}].left_accessor_variety, {d}[{w}].right_accessor_variety) == AV({cs}{w})'
        ' and ({d}[{w}].leftside_frequency, {d}[{w}].rightside_frequency) == (FREQ(self.L, {w}), FREQ(self.R, {w}))').format(d=d, w=w, cs=cs, coh=coh(w))
    WS = [w_('iff(w in %s, {0}) and implies(w in %s, {1})'.format(word('w'), sc('%s', 'w')).replace('%s', '{0}').format(r)) for r in ('result',)]
    c.add(Contract(X + '.word_scores', [self], returns='dict[str,SCORE]', requires=['self.verbose <= 0'], ensures=WS))
    c.loops[X + '.word_scores'] = [Loop([w_('iff(w in scores, %s and _idx(w) < _i) and implies(w in scores, %s)' % (word('w'), sc('scores', 'w')))], types={'scores': 'dict[str,SCORE]'})]
    ok = lambda s, w: ('({0}.left_branching_entropy >= self.min_left_branching_entropy and {0}.right_branching_entropy >= self.min_right_branching_entropy and {0}.left_accessor_variety >= self.min_left_accessor_variety'
        ' and {0}.right_accessor_variety >= self.min_right_accessor_variety and ({0}.leftside_frequency >= self.min_frequency or {0}.rightside_frequency >= self.min_frequency)'
        ' and (len({1}) < 2 or {0}.cohesion_forward >= self.min_cohesion_forward and {0}.cohesion_backward >= self.min_cohesion_backward))').format(s, w)
    given = 'iff(w in result, w in {0} and {1}) and implies(w in result, result[w] == {0}[w])'
    val = (w_('iff(w in result, {0} and BE({1}w)[0] >= self.min_left_branching_entropy and BE({1}w)[1] >= self.min_right_branching_entropy and AV({1}w)[0] >= self.min_left_accessor_variety and AV({1}w)[1] >= self.min_right_accessor_variety'
        ' and (FREQ(self.L, w) >= self.min_frequency or FREQ(self.R, w) >= self.min_frequency) and (len(w) < 2 or {2}[0] >= self.min_cohesion_forward and {2}[1] >= self.min_cohesion_backward)) and implies(w in result, {3})').format(word('w'), cs, coh('w'), sc('result', 'w')))
    c.add(Contract(X + '.extract', [self, ('scores', 'dict[str,SCORE]')], alts={'scores': ['none', 'dict[str,SCORE]']}, returns='dict[str,SCORE]', requires=['self.verbose <= 0', 'not self.remove_subwords'], paths=True,
        ensures=['implies(scores is not None and len(scores) > 0, %s)' % w_(given.format('scores', ok('scores[w]', 'w'))), 'implies(scores is None or len(scores) == 0, %s)' % val]))
    c.loops[X + '.extract'] = [Loop([w_('iff(w in scores_, w in scores and %s and exists(lambda q: 0 <= q < _i and _key(q) == w)) and implies(w in scores_, scores_[w] == scores[w])' % ok('scores[w]', 'w'))], types={'scores_': 'dict[str,SCORE]'})]
    names = ['max_left_length', 'max_right_length', 'min_frequency', 'verbose_points', 'min_cohesion_forward', 'min_cohesion_backward', 'max_droprate_cohesion', 'max_droprate_leftside_frequency',
             'min_left_branching_entropy', 'min_right_branching_entropy', 'min_left_accessor_variety', 'min_right_accessor_variety', 'remove_subwords']
    tys = ['int'] * 4 + ['real'] * 6 + ['int'] * 2 + ['bool']
    fin0 = lambda d, n: w_('iff(w in self.{d}, {t} > 0 and {t} >= min_frequency) and implies(w in self.{d}, self.{d}[w] == {t})'.format(d=d, t='(%s if %s else 0)' % (n, lim[d].replace('self.', ''))))
    c.add(Contract(X + '.__init__', [self, ('sents', 'list[str]')] + list(zip(names, tys)), alts={'sents': ['none', 'list[str]']}, requires=['verbose_points <= 0', 'max_left_length >= 1', 'max_right_length >= 1'],
        ensures=['self.%s == %s' % ('verbose' if n == 'verbose_points' else n, n) for n in names if n != 'max_droprate_cohesion'] + [
        'implies(sents is None or len(sents) == 0, len(self.L) == 0 and len(self.R) == 0)',
        'implies(sents is not None and len(sents) > 0, %s and %s)' % (fin0('L', 'PS(sents, len(sents), w)'), fin0('R', 'SS(sents, len(sents), w)'))]))
    return c
