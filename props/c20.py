"""Saving and loading EojeolCounter and LRGraph as text, and the conversions between them."""
from .counts import *
from pyvc.exec import FunV, CObj, CPy, Sym, CList
from pyvc.expr import STRT, STRSEQ

NOTES = ['a text file opened for reading under the name it was written with yields the lines written (one write is one line: proved)',
         'int(str(n)) == n and str.split() are axiomatised']


def textfile(c):
    """DISK: the lines of the file; FILE, ENC: name and encoding it was last opened with"""
    def hook(ex, a, mode, st, node):
        g = st.envs[ex.gfid]
        g['FILE'] = a[0]
        g['ENC'] = ex.openkw.get('encoding', a[3] if len(a) > 3 else 'platform')
        if 'w' in mode:
            g['DISK'] = ex.alloc(st, CList(STR, STRSEQ.empty))
            return ex.alloc(st, CObj('file', {'out': g['DISK'], 'lines': None, 'pos': 0}))
        return ex.alloc(st, CObj('file', {'lines': g['DISK'], 'pos': 0}))
    c.openhook = hook
    c.ghosts.update(FILE='str', ENC='str', DISK='list[str]')


one = lambda s: 'len({0}) > 0 and {0}[len({0}) - 1] == "\\n" and forall(lambda j: implies(0 <= j < len({0}) - 1, {0}[j] != "\\n" and {0}[j] != "\\r"))'.format(s)


def counter_fields(c):
    pre = c.fn('PRE', [('s', 'str')], 'str')
    fun = lambda ex, st: FunV(FUN([STR], STR), pre.f)
    c.cls(E, {'min_count': 'int', 'max_length': 'int', 'filtering_checkpoint': 'int', 'verbose': 'bool', '_coverage': 'real', 'preprocess': fun, '_counter': CNT, '_count_sum': 'int'},
          ['0 <= self._coverage and self._coverage <= 1', 'sum(self._counter.values()) <= self._count_sum'])


def build():
    c = context()
    textfile(c)
    c.fn('NW', [('s', 'str')], 'bool', 'forall(lambda j: implies(0 <= j < len(s), not isws(s[j])))')
    c.fn('LINE2', [('w', 'str'), ('n', 'int')], 'str', 'w + " " + str(n) + "\\n"')
    c.fn('LINE3', [('l', 'str'), ('r', 'str'), ('n', 'int')], 'str', 'l + " " + r + " " + str(n) + "\\n"')
    ok = lambda w: '%s != "" and NW(%s)' % (w, w)
    c.lemma('L2', [('w', 'str'), ('n', 'int')], [ok('w')], ['len(LINE2(w, n).split()) == 2', 'LINE2(w, n).split()[0] == w', 'LINE2(w, n).split()[1] == str(n)'], trig=['LINE2(w, n)'])
    c.lemma('L3', [('l', 'str'), ('r', 'str'), ('n', 'int')], [ok('l'), 'NW(r)'], [
        'implies(r == "", len(LINE3(l, r, n).split()) == 2 and LINE3(l, r, n).split()[0] == l and LINE3(l, r, n).split()[1] == str(n))',
        'implies(r != "", len(LINE3(l, r, n).split()) == 3 and LINE3(l, r, n).split()[0] == l and LINE3(l, r, n).split()[1] == r and LINE3(l, r, n).split()[2] == str(n))'], trig=['LINE3(l, r, n)'])
    c.lemma('LINE2_one', [('w', 'str'), ('n', 'int')], [ok('w')], [one('LINE2(w, n)')], trig=['LINE2(w, n)'])
    c.lemma('LINE3_one', [('l', 'str'), ('r', 'str'), ('n', 'int')], [ok('l'), 'NW(r)'], [one('LINE3(l, r, n)')], trig=['LINE3(l, r, n)'])
    counter_fields(c)
    # -- counter: each line is one eojeol with its count, each eojeol has a line
    words = lambda d: w_('implies(w in %s, %s and %s[w] > 0)' % (d, ok('w'), d))
    lines2 = lambda d, n='len(DISK)': ['forall(lambda i: implies(0 <= i < %s, exists(lambda w: w in %s and DISK[i] == LINE2(w, %s[w]), w="str")))' % (n, d, d),
                                       w_('implies(w in %s, exists(lambda i: 0 <= i < %s and DISK[i] == LINE2(w, %s[w])))' % (d, n, d))]
    self = ('self', 'obj ' + E)
    open_ = ['FILE == path', 'ENC == "utf-8"']
    c.ghosts.update(CNTS='dict[str,int]', GR=LR)
    c.add(Contract(E + '.save', [self, ('path', 'str')], requires=[words('self._counter')], ensures=open_ + lines2('self._counter') + ['forall(lambda i: implies(0 <= i < len(DISK), %s))' % one('DISK[i]')]))
    c.loops[E + '.save'] = [Loop(['len(DISK) == _i', 'forall(lambda i: implies(0 <= i < _i, DISK[i] == LINE2(_key(i), self._counter[_key(i)])))'])]
    c.add(Contract(E + '.load', [self, ('path', 'str')], requires=[words('CNTS')] + lines2('CNTS'), modifies=['self._coverage', 'self._counter', 'new self._counter', 'self._count_sum'], ensures=open_ + [
        w_('iff(w in self._counter, w in CNTS)'), w_('implies(w in CNTS, self._counter[w] == CNTS[w])'), 'self._coverage == 0', 'self._count_sum == sum(self._counter.values())']))
    c.loops[E + '.load'] = [Loop([w_('implies(w in self._counter, w in CNTS and self._counter[w] == CNTS[w])'),
                                  'forall(lambda w, j: implies(0 <= j < _i and w in CNTS and DISK[j] == LINE2(w, CNTS[w]), w in self._counter), w="str")'])]
    # -- graph: each line is one (l, r) with its count, each pair has a line, the lines of one l stand together
    graph(c, False)
    c.fn('F', [('s', 'str')], 'str', 's.split()[0]')
    parts = lambda d: lr_('implies(%s, %s and NW(r))' % (has(d), ok('l')))
    dist = 'forall(lambda i, j: implies(0 <= i and i < j and j < %s, DISK[i] != DISK[j]))'
    group = 'forall(lambda i, j, k: implies(0 <= i and i < j and j < k and k < %s and F(DISK[i]) == F(DISK[k]), F(DISK[j]) == F(DISK[i])))'
    L3 = lambda d, l='l', r='r': 'LINE3({1}, {2}, {0}[{1}][{2}])'.format(d, l, r)
    self = ('self', 'obj ' + G)
    o = 'self._lr_origin'
    c.add(Contract(G + '.save', [self, ('path', 'str')], requires=[parts(o)], ensures=open_ + [
        'forall(lambda i: implies(0 <= i < len(DISK), exists(lambda l, r: %s and DISK[i] == %s, l="str", r="str")))' % (has(o), L3(o)),
        lr_('implies(%s, exists(lambda i: 0 <= i < len(DISK) and DISK[i] == %s))' % (has(o), L3(o))),
        dist % 'len(DISK)', group % 'len(DISK)', 'forall(lambda i: implies(0 <= i < len(DISK), %s))' % one('DISK[i]')]))
    it = lambda n: '_key(q%s)' % n
    from_ = lambda n, m: 'exists(lambda q, b: 0 <= q < {1} and {0} in {2} and b in {2}[{0}] and DISK[i] == {3}, b="str")'.format(it(n), m, o, L3(o, it(n), 'b'))
    into = lambda n, m: 'forall(lambda q, b: implies(0 <= q < {1} and b in {2}[{0}], exists(lambda i: 0 <= i < len(DISK) and DISK[i] == {3})), b="str")'.format(it(n), m, o, L3(o, it(n), 'b'))
    every = lambda b: 'forall(lambda i: implies(0 <= i < len(DISK), %s))' % b
    N = ', "l"'
    c.loops[G + '.save'] = [
        Loop([every(from_('', '_i')), into('', '_i'), dist % 'len(DISK)', group % 'len(DISK)', every(one('DISK[i]'))], name='l'),
        Loop([every('implies(F(DISK[i]) != l, %s)' % from_(N, '_i_l')), every('implies(F(DISK[i]) == l, exists(lambda p: 0 <= p < _i and _key(p) in %s[l] and DISK[i] == %s))' % (o, L3(o, 'l', '_key(p)'))),
              into(N, '_i_l'), 'forall(lambda p: implies(0 <= p < _i, exists(lambda i: 0 <= i < len(DISK) and DISK[i] == %s)))' % L3(o, 'l', '_key(p)'),
              dist % 'len(DISK)', group % 'len(DISK)', every(one('DISK[i]')), 'forall(lambda i, j: implies(0 <= i and i < j and j < len(DISK) and F(DISK[i]) == l, F(DISK[j]) == l))'])]
    # the Skolem form of what save ensures, for the graph GR that was saved
    c.fn('NO', [('l', 'str'), ('r', 'str')], 'int')
    c.fn('LF', [('i', 'int')], 'str')
    c.fn('RF', [('i', 'int')], 'str')
    seen = lambda n: '{0} and NO(a, b) < {1}'.format(has('GR', 'a', 'b'), n)
    c.add(Contract(G + '.load', [self, ('path', 'str')], paths=True, requires=[parts('GR')] + WELL('GR') + [
        lr_('implies(%s, 0 <= NO(l, r) < len(DISK) and DISK[NO(l, r)] == %s)' % (has('GR'), L3('GR'))),
        'forall(lambda i: implies(0 <= i < len(DISK), LF(i) in GR and RF(i) in GR[LF(i)] and NO(LF(i), RF(i)) == i and F(DISK[i]) == LF(i)))',
        group % 'len(DISK)'], modifies=['self._lr', 'self._rl', 'self._lr_origin', 'new self._lr', 'new self._rl', 'new self._lr_origin'],
        ensures=open_ + same('self._lr_origin', 'GR') + same('self._lr', 'GR')))
    c.loops[G + '.load'] = [Loop([
        'implies(_i == 0, l == "") and implies(_i > 0, l == LF(_i - 1))',
        'forall(lambda b: iff(b in rdict, {0} in GR and b in GR[{0}] and NO({0}, b) < _i), b="str")'.format('l'),
        'forall(lambda b: implies(b in rdict, rdict[b] == GR[l][b]), b="str")',
        'l not in self._lr_origin',
        ab_('iff(%s, a != l and %s)' % (has(o, 'a', 'b'), seen('_i'))), ab_('implies(%s, %s[a][b] == GR[a][b])' % (has(o, 'a', 'b'), o)), norow(o)], types={'rdict': CNT})]
    # -- conversions
    src = '(self._lr_origin if reset_lrgraph else self._lr)'
    conv = lambda d, s, q='': [ab_('implies(%s%s, a + b in %s)' % (has(s, 'a', 'b'), q, d)), w_('implies(w in %s, exists(lambda a, b: w == a + b and %s and %s[w] == %s[a][b], a="str", b="str"))' % (d, has(s, 'a', 'b'), d, s))]
    c.add(Contract(G + '.to_EojeolCounter', [self, ('reset_lrgraph', 'bool')], returns='obj ' + E, paths=True, ensures=conv('result._counter', src) + ['result._count_sum == sum(result._counter.values())', 'result._coverage == 0']))
    c.loops[G + '.to_EojeolCounter'] = [Loop(conv('counter', 'lr', ' and _idx(a) < _i'), name='l'), Loop(conv('counter', 'lr', ' and (_idx(a, "l") < _i_l or a == l and _idx(b) < _i)'))]
    # a counter turned into a graph and back keeps every count that has an admissible split
    adm = 'a != "" and len(a) <= lm and len(b) <= rm and a + b in C'
    c.lemma('counter-graph-counter', [('C', CNT), ('g', LR), ('R', CNT), ('lm', 'int'), ('rm', 'int')],
            [ab_('iff(%s, %s)' % (has('g', 'a', 'b'), adm)), ab_('implies(%s, g[a][b] == C[a + b])' % has('g', 'a', 'b'))] + conv('R', 'g'),
            [w_('implies(w in R, w in C and R[w] == C[w])'), 'forall(lambda w, e: implies(w in C and 1 <= e <= lm and e <= len(w) and len(w) - e <= rm, w[:e] + w[e:] in R), w="str")'], export=False)
    return c
