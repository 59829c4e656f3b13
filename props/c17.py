"""Word-context matrix: vocabulary, neighbour counts, sparse encoding and symmetry."""
from .common import *
from .matrix import *
from pyvc.exec import FunV, Tup, Sym
from pyvc.spec import FUN
from pyvc.theory import STR, LIST, DICT, REAL

V = 'soynlp.vectorizer._word_context:'
NOTES = ['the tokenizer is an arbitrary pure function', 'scipy.sparse.csr_matrix((data, (rows, cols)), shape) is the matrix of that shape whose entry (i, j) is the sum of the data at (i, j)', 'no progress messages']
D2 = 'dict[str,dict[str,real]]'


def build():
    c = context()
    tok = c.fn('TOK', [('s', 'str')], 'list[str]')
    fun = lambda ex, st: FunV(FUN([STR], LIST(STR)), tok.f)
    LS = 'list[str]'
    c.fn('WC', [('ws', LS), ('n', 'int'), ('w', 'str')], 'int', 'ite(n <= 0, 0, WC(ws, n - 1, w) + ite(ws[n - 1] == w, 1, 0))')
    c.fn('SC', [('ss', LS), ('n', 'int'), ('w', 'str')], 'int', 'ite(n <= 0, 0, SC(ss, n - 1, w) + WC(TOK(ss[n - 1]), len(TOK(ss[n - 1])), w))')
    DW = [('dyn', 'bool'), ('W', 'int')]
    wt = lambda d: '(ite(dyn, (W - %s + 1) / W, 1.0))' % d
    # the weights of the occurrences of x up to k places before, after position i
    c.fn('LEFT', [('ws', LS), ('i', 'int'), ('k', 'int'), ('x', 'str')] + DW, 'real', 'ite(k <= 0, 0.0, LEFT(ws, i, k - 1, x, dyn, W) + ite(i - k >= 0 and ws[i - k] == x, %s, 0.0))' % wt('k'))
    c.fn('RIGHT', [('ws', LS), ('i', 'int'), ('k', 'int'), ('x', 'str')] + DW, 'real', 'ite(k <= 0, 0.0, RIGHT(ws, i, k - 1, x, dyn, W) + ite(i + k < len(ws) and ws[i + k] == x, %s, 0.0))' % wt('k'))
    # nothing is farther away than the ends of the sentence
    for nm, room in (('LEFT', 'i'), ('RIGHT', 'len(ws) - i - 1')):
        c.lemma('ends ' + nm, [('ws', LS), ('i', 'int'), ('j', 'int'), ('k', 'int'), ('x', 'str')] + DW, ['j <= k', '%s <= j' % room, '0 <= j'], ['%s(ws, i, k, x, dyn, W) == %s(ws, i, j, x, dyn, W)' % (nm, nm)], measure='k',
                trig=['%s(ws, i, k, x, dyn, W), %s(ws, i, j, x, dyn, W)' % (nm, nm)])
    # over the positions before n that hold w; over the first n sentences
    c.fn('AROUND', [('ws', LS), ('n', 'int'), ('w', 'str'), ('x', 'str')] + DW, 'real', 'ite(n <= 0, 0.0, AROUND(ws, n - 1, w, x, dyn, W) + ite(ws[n - 1] == w, LEFT(ws, n - 1, W, x, dyn, W) + RIGHT(ws, n - 1, W, x, dyn, W), 0.0))')
    c.fn('PAIRS', [('ss', LS), ('n', 'int'), ('w', 'str'), ('x', 'str')] + DW, 'real', 'ite(n <= 0, 0.0, PAIRS(ss, n - 1, w, x, dyn, W) + AROUND(TOK(ss[n - 1]), len(TOK(ss[n - 1])), w, x, dyn, W))')
    isn = 'forall(lambda s: tokenizer(s) == TOK(s), s="str")'
    # -- vocabulary
    w_ = lambda b: 'forall(lambda w: %s, w="str")' % b
    c.add(Contract(V + '_scanning_vocabulary', [('sents', LS), ('min_tf', 'int'), ('tokenizer', fun), ('verbose', 'bool')], requires=[isn, 'not verbose'], returns='tup[dict[str,int],list[str]]', chain=True, ensures=[
        w_('iff(w in result[0], SC(sents, len(sents), w) > 0 and SC(sents, len(sents), w) >= min_tf)'), 'len(result[1]) == len(result[0])',
        'forall(lambda i: implies(0 <= i < len(result[1]), result[1][i] in result[0] and result[0][result[1][i]] == i))',
        w_('implies(w in result[0], 0 <= result[0][w] and result[0][w] < len(result[1]) and result[1][result[0][w]] == w)')]))
    cnt = lambda n: [w_('iff(w in word_counter, {0} > 0) and implies(w in word_counter, word_counter[w] == {0}) and {0} >= 0'.format(n))]
    c.loops[V + '_scanning_vocabulary'] = [Loop(cnt('SC(sents, _i, w)'), name='s'), Loop(cnt('(SC(sents, _i_s, w) + WC(words, _i, w))'))]
    ranks(c)
    # -- counting
    c.hints[V + '_word_context'] = (STR, DICT(STR, REAL))
    VI = ('vocab2idx', 'dict[str,int]')
    get = lambda d, w='w', x='x': '({0}[{1}][{2}] if {1} in {0} and {2} in {0}[{1}] else 0.0)'.format(d, w, x)
    wx = lambda b: 'forall(lambda w, x: %s, w="str", x="str")' % b
    D = 'dynamic_weight, windows'
    inv = lambda v: [wx('implies(w in vocab2idx and x in vocab2idx, %s == %s)' % (get('word2contexts'), v)), wx('implies(w in word2contexts and x in word2contexts[w], w in vocab2idx and x in vocab2idx)'), w_('implies(w in word2contexts, w in vocab2idx)')]
    c.add(Contract(V + '_word_context', [('sents', LS), ('windows', 'int'), ('tokenizer', fun), ('dynamic_weight', 'bool'), ('verbose', 'bool'), VI], requires=[isn, 'not verbose', 'windows >= 1'], split=['dynamic_weight'], returns=D2,
                   ensures=[x.replace('word2contexts', 'result') for x in inv('PAIRS(sents, len(sents), w, x, %s)' % D)]))
    T = {'word2contexts': D2}
    base = 'PAIRS(sents, _i_s, w, x, %s) + AROUND(words, _i_w, w, x, %s)' % (D, D)
    c.loops[V + '_word_context'] = [Loop(inv('PAIRS(sents, _i, w, x, %s)' % D), types=T, name='s'), Loop(inv('PAIRS(sents, _i_s, w, x, %s) + AROUND(words, _i, w, x, %s)' % (D, D)), types=T, name='w'),
        Loop(inv(base + ' + ite(w == word, LEFT(words, i, _i, x, %s), 0.0)' % D), types=T), Loop(inv(base + ' + ite(w == word, LEFT(words, i, windows, x, %s) + RIGHT(words, i, _i, x, %s), 0.0)' % (D, D)), types=T)]
    # -- encoding
    triples(c, 'real')
    inj = 'forall(lambda w, x: implies(w in vocab2idx and x in vocab2idx and vocab2idx[w] == vocab2idx[x], w == x), w="str", x="str", trig=(vocab2idx[w], vocab2idx[x]))'
    rng = w_('implies(w in vocab2idx, 0 <= vocab2idx[w] and vocab2idx[w] < len(vocab2idx))')
    sub = ['forall(lambda w: implies(w in word2contexts, w in vocab2idx), w="str")', wx('implies(w in word2contexts and x in word2contexts[w], x in vocab2idx)')]
    cell = lambda r, v: wx('implies(w in vocab2idx and x in vocab2idx, CELL({0}[0], {0}[1], {0}[2], len({0}[0]), vocab2idx[w], vocab2idx[x]) == {1})'.format(r, v))
    c.add(Contract(V + '_encode_as_matrix', [('word2contexts', D2), VI, ('verbose', 'bool')], requires=['not verbose', 'len(vocab2idx) >= 0', inj, rng] + sub, returns=CSR, ensures=[
        'result[3] == len(vocab2idx) and result[4] == len(vocab2idx)', cell('result', get('word2contexts'))]))
    lens = ['len(rows) == len(data) and len(cols) == len(data)', 'INSIDE(rows, len(vocab2idx)) and INSIDE(cols, len(vocab2idx))']
    T = {'data': 'list[real]', 'rows': 'list[int]', 'cols': 'list[int]'}
    cells = lambda v: cell('(data, rows, cols)', v).replace('(data, rows, cols)[0]', 'data').replace('(data, rows, cols)[1]', 'rows').replace('(data, rows, cols)[2]', 'cols')
    done = '(word2contexts[w][x] if w in word2contexts and %s and x in word2contexts[w] else 0.0)'
    c.loops[V + '_encode_as_matrix'] = [Loop(lens + [cells(done % '_idx(w) < _i')], types=T, name='w'),
        Loop(lens + [cells('(word2contexts[w][x] if w in word2contexts and x in word2contexts[w] and (_idx(w, "w") < _i_w or w == word and _idx(x) < _i) else 0.0)')], types=T)]
    # -- symmetry
    P = [('ws', LS), ('n', 'int'), ('k', 'int'), ('w', 'str'), ('x', 'str')] + DW
    pr = 'w, x, dyn, W'; xw = 'x, w, dyn, W'
    # over the positions of w before n: the weights of the occurrences of x up to k places before (after); exactly k places before (after)
    c.fn('LW', P, 'real', 'ite(n <= 0, 0.0, LW(ws, n - 1, k, w, x, dyn, W) + ite(ws[n - 1] == w, LEFT(ws, n - 1, k, x, dyn, W), 0.0))')
    c.fn('RW', P, 'real', 'ite(n <= 0, 0.0, RW(ws, n - 1, k, w, x, dyn, W) + ite(ws[n - 1] == w, RIGHT(ws, n - 1, k, x, dyn, W), 0.0))')
    c.fn('LD', P, 'real', 'ite(n <= 0, 0.0, LD(ws, n - 1, k, w, x, dyn, W) + ite(ws[n - 1] == w and n - 1 - k >= 0 and ws[n - 1 - k] == x, %s, 0.0))' % wt('k'))
    c.fn('RD', P, 'real', 'ite(n <= 0, 0.0, RD(ws, n - 1, k, w, x, dyn, W) + ite(ws[n - 1] == w and n - 1 + k < len(ws) and ws[n - 1 + k] == x, %s, 0.0))' % wt('k'))
    req = ['1 <= k', 'n <= len(ws)']
    c.lemma('splitL', P, req, ['LW(ws, n, k, %s) == LW(ws, n, k - 1, %s) + LD(ws, n, k, %s)' % (pr, pr, pr)], measure='n')
    c.lemma('splitR', P, req, ['RW(ws, n, k, %s) == RW(ws, n, k - 1, %s) + RD(ws, n, k, %s)' % (pr, pr, pr)], measure='n')
    c.lemma('shift', P, req, ['LD(ws, n, k, %s) == RD(ws, n - k, k, %s)' % (pr, xw)], measure='n', hints=['implies(n - k <= 0, RD(ws, n - 1 - k, k, %s) == 0.0)' % xw])
    c.lemma('tail', P, req + ['len(ws) - k <= n'], ['RD(ws, n, k, %s) == RD(ws, len(ws) - k, k, %s)' % (pr, pr)], measure='n', trig=['RD(ws, n, k, %s)' % pr])
    c.lemma('none', P, ['k <= 0'], ['LW(ws, n, k, %s) == 0.0' % pr, 'RW(ws, n, k, %s) == 0.0' % pr], measure='n')
    c.lemma('swap', [('ws', LS), ('k', 'int'), ('w', 'str'), ('x', 'str')] + DW, [], ['LW(ws, len(ws), k, %s) == RW(ws, len(ws), k, %s)' % (pr, xw)], measure='k', hints=['implies(k > 0, LW(ws, len(ws), k - 1, %s) == RW(ws, len(ws), k - 1, %s))' % (pr, xw), 'implies(k > 0, LD(ws, len(ws), k, %s) == RD(ws, len(ws), k, %s))' % (pr, xw)])
    c.lemma('around', [('ws', LS), ('n', 'int'), ('w', 'str'), ('x', 'str')] + DW, [], ['AROUND(ws, n, %s) == LW(ws, n, W, %s) + RW(ws, n, W, %s)' % (pr, pr, pr)], measure='n')
    c.lemma('sentence', [('ws', LS), ('w', 'str'), ('x', 'str')] + DW, [], ['AROUND(ws, len(ws), %s) == AROUND(ws, len(ws), %s)' % (pr, xw)], trig=['AROUND(ws, len(ws), %s)' % pr], hints=['LW(ws, len(ws), W, %s) == RW(ws, len(ws), W, %s)' % q for q in ((pr, xw), (xw, pr))])
    c.lemma('symmetric', [('ss', LS), ('n', 'int'), ('w', 'str'), ('x', 'str')] + DW, [], ['PAIRS(ss, n, %s) == PAIRS(ss, n, %s)' % (pr, xw)], measure='n', trig=['PAIRS(ss, n, %s)' % pr])
    c.add(Contract(V + 'sent_to_word_contexts_matrix', [('sents', LS), ('windows', 'int'), ('min_tf', 'int'), ('tokenizer', fun), ('dynamic_weight', 'bool'), ('verbose', 'bool')], requires=[isn, 'not verbose', 'windows >= 1'], returns='tup[%s,list[str]]' % CSR, ensures=[
        'result[0][3] == len(result[1]) and result[0][4] == len(result[1])',
        'forall(lambda i, j: implies(0 <= i < j < len(result[1]), result[1][i] != result[1][j]))',
        w_('iff(w in result[1], SC(sents, len(sents), w) > 0 and SC(sents, len(sents), w) >= min_tf)'),
        'forall(lambda i, j: implies(0 <= i < len(result[1]) and 0 <= j < len(result[1]), CELL(result[0][0], result[0][1], result[0][2], len(result[0][0]), i, j) == PAIRS(sents, len(sents), result[1][i], result[1][j], %s)))' % D,
        'forall(lambda i, j: implies(0 <= i < len(result[1]) and 0 <= j < len(result[1]), CELL(result[0][0], result[0][1], result[0][2], len(result[0][0]), i, j) == CELL(result[0][0], result[0][1], result[0][2], len(result[0][0]), j, i)))'], chain=True))
    return c
