"""PMI: the stored values and the stored positions."""
from .arrays import *

W = 'soynlp.word._pmi:'
NOTES = ['numpy arrays and scipy sparse matrices are used through models of the operations that occur (sum, scaling by a number, diagonal products, nonzero, where, fancy indexing, log, exp, power, csr_matrix from triples) in exact real arithmetic; a diagonal product stores no zero and no position twice; an entry of a dok_matrix set to 0 counts as an entry',
         'LOG, EXP and POW are unknown functions with these assumed facts: for x > 0, x >= EXP(m) exactly when LOG(x) >= m, and x >= 1 exactly when LOG(x) >= 0; EXP(m) > 0; POW(x, y) >= 0, and 0 only for x = 0 (x >= 0, y > 0)',
         'X is a csr_matrix of non-negative counts that do not add up to zero, with its entries inside its shape; py is a (1, n) ndarray of non-negative numbers that do not add up to zero']
BOUNDED = []


def build():
    c = context()
    arrays(c)
    L, N = 'list[real]', ('n', 'int')
    VB = [('v', L), ('by', 'list[int]'), N, ('i', 'int')]
    pos = 'forall(lambda k: implies(0 <= k < len(v), v[k] >= 0))'
    A = [('v', L), ('rows', 'list[int]'), ('cols', 'list[int]'), N, ('i', 'int'), ('j', 'int')]
    C = 'CELL(v, rows, cols, n, i, j)'
    c.fn('NONNEG', [('v', L)], 'bool', pos)
    c.lemma('marginpos', VB, ['NONNEG(v)', 'n <= len(v)'], ['MARGIN(v, by, n, i) >= 0'], measure='n', trig=['NONNEG(v), MARGIN(v, by, n, i)'])
    c.lemma('cellpos', A, ['NONNEG(v)', 'n <= len(v)'], [C + ' >= 0', C + ' <= MARGIN(v, rows, n, i)', C + ' <= MARGIN(v, cols, n, j)'], measure='n', trig=['NONNEG(v), ' + C])
    c.lemma('cellscaled', [('r', L), ('s', 'real')] + A, ['SCALED(r, v, s)', 's != 0', 'n <= len(v)'], [C.replace('(v', '(r') + ' == %s / s' % C], measure='n', trig=['SCALED(r, v, s), ' + C.replace('(v', '(r'), 'SCALED(r, v, s), ' + C])
    c.lemma('totalnat', [('v', L), N], ['NONNEG(v)', 'n <= len(v)'], ['TOTAL(v, n) >= 0'], measure='n', trig=['NONNEG(v), TOTAL(v, n)'])
    c.lemma('totalat', [('v', L), N, ('k', 'int')], ['NONNEG(v)', '0 <= k < n', 'n <= len(v)'], ['TOTAL(v, n) >= v[k]'], measure='n', hints=['TOTAL(v, n) == TOTAL(v, n - 1) + v[n - 1]', 'TOTAL(v, n - 1) >= 0', 'implies(k < n - 1, TOTAL(v, n - 1) >= v[k])', 'v[n - 1] >= 0'], trig=['TOTAL(v, n), v[k]'])
    c.lemma('totalpos', [('v', L), N], ['NONNEG(v)', 'TOTAL(v, n) > 0', '0 <= n <= len(v)'], ['exists(lambda k: 0 <= k < n and v[k] > 0)'], measure='n', hints=['n > 0', 'TOTAL(v, n - 1) > 0 or v[n - 1] > 0', 'implies(TOTAL(v, n - 1) > 0, exists(lambda k: 0 <= k < n - 1 and v[k] > 0))'], trig=['NONNEG(v), TOTAL(v, n)'])
    c.lemma('marginat', VB + [('k', 'int')], ['NONNEG(v)', '0 <= k < n', 'n <= len(v)'], ['MARGIN(v, by, n, by[k]) >= v[k]'], measure='n', trig=['NONNEG(v), MARGIN(v, by, n, i), v[k]'])
    c.fn('RATIO', [('p', 'real'), ('a', 'real'), ('b', 'real')], 'real', 'p / (a * b)', hidden=True)
    c.lemma('ratio', [(n, 'real') for n in 'xypab'], ['x == 1 / a', 'y == 1 / b', 'a != 0', 'b != 0'], ['MUL(y, MUL(x, p)) == RATIO(p, a, b)', 'MUL(x, MUL(y, p)) == RATIO(p, a, b)'], trig=['MUL(y, MUL(x, p)), RATIO(p, a, b)'])
    c.lemma('ratiopos', [(n, 'real') for n in 'pab'], ['p > 0', 'a > 0', 'b > 0'], ['RATIO(p, a, b) > 0'], trig=['RATIO(p, a, b)'])
    ps = [('X', matrix), ('py', 'none'), ('min_pmi', 'real'), ('alpha', 'real'), ('beta', 'real')]
    row = lambda ex, st: Nd(ex, REAL, ex.fresh(RT.sort, 'py'), 'row')
    p = 'CELL(X.data.entries, X.rows, X.cols, X.nnz, i, j) / X.sum()'
    pmi = 'LOG(RATIO(%s, result[1][i], result[2][j] + alpha))' % p
    E = 'len(result[1].entries) == X.shape[0]'
    req = ['X.nnz == len(X.rows) and X.nnz == len(X.cols) and INSIDE(X.rows, X.shape[0]) and INSIDE(X.cols, X.shape[1])', 'NONNEG(X.data)', 'X.sum() > 0', '0 < beta <= 1', 'alpha >= 0',
           'py is None or py.shape[1] == X.shape[1] and NONNEG(py) and py.sum() > 0']
    marg = ['result[0].shape == X.shape', 'result[1].shape[1] == X.shape[0] and result[2].shape[1] == X.shape[1]',
            'forall(lambda i: implies(0 <= i < X.shape[0], result[1][i] == MARGIN(X.data, X.rows, X.nnz, i) / X.sum()))',
            'implies(beta == 1 and py is None, forall(lambda j: implies(0 <= j < X.shape[1], result[2][j] == MARGIN(X.data, X.cols, X.nnz, j) / X.sum())))',
            'implies(beta == 1 and py is not None, forall(lambda j: implies(0 <= j < X.shape[1], result[2][j] == py[j])))',
            'implies(beta < 1 and py is None, exists(lambda v: len(v) == X.shape[1] and forall(lambda j: implies(0 <= j < len(v), v[j] == POW(MARGIN(X.data, X.cols, X.nnz, j) / X.sum(), beta) and result[2][j] == v[j] / TOTAL(v, len(v)))), v="list[real]"))',
            'implies(beta < 1 and py is not None, exists(lambda v: len(v) == X.shape[1] and forall(lambda j: implies(0 <= j < len(v), v[j] == POW(py[j], beta) and result[2][j] == v[j] / TOTAL(v, len(v)))), v="list[real]"))']
    reach = 'forall(lambda i, j: implies(0 <= i < X.shape[0] and 0 <= j < X.shape[1] and %s > 0 and result[1][i] > 0 and result[2][j] + alpha > 0 and %s >= min_pmi, %%s))' % (p, pmi)
    c.add(Contract(W + 'pmi', ps, alts={'py': ['none', row]}, paths=True, requires=req, chain=True, ensures=marg + [
        'DISTINCT(result[0].rows, result[0].cols)',
        'forall(lambda k, i, j: implies(0 <= k < result[0].nnz and i == result[0].rows[k] and j == result[0].cols[k] and result[1][i] > 0 and result[2][j] + alpha > 0, result[0].data[k] == %s and %s > 0 and result[0].data[k] >= min_pmi))' % (pmi, p),
        reach % 'STORED(result[0].rows, result[0].cols, i, j)']))
    D = [('d', 'dict[tup[int,int],real]'), ('q', 'list[int]'), ('rows', 'list[int]'), ('cols', 'list[int]'), ('data', L), N]
    c.fn('FILLED', D, 'bool', 'forall(lambda k: implies(0 <= k < n, (rows[q[k]], cols[q[k]]) in d and d[(rows[q[k]], cols[q[k]])] == LOG(data[q[k]])), trig=q[k]) and forall(lambda i, j: implies((i, j) in d, exists(lambda k: 0 <= k < n and rows[q[k]] == i and cols[q[k]] == j)))')
    c.fn('USES', [('q', 'list[int]'), ('rows', 'list[int]'), ('cols', 'list[int]')], 'bool', 'len(rows) == len(cols) and forall(lambda k: implies(0 <= k < len(q), 0 <= q[k] < len(rows))) and forall(lambda k, l: implies(0 <= k < l < len(q), q[k] < q[l]))')
    c.lemma('fill', D + [('d2', 'dict[tup[int,int],real]')], ['DISTINCT(rows, cols)', 'USES(q, rows, cols)', 'FILLED(d, q, rows, cols, data, n)', '0 <= n < len(q)',
            '(rows[q[n]], cols[q[n]]) in d2 and d2[(rows[q[n]], cols[q[n]])] == LOG(data[q[n]])', 'forall(lambda i, j: implies(i != rows[q[n]] or j != cols[q[n]], iff((i, j) in d2, (i, j) in d) and d2[(i, j)] == d[(i, j)]))'],
            ['FILLED(d2, q, rows, cols, data, n + 1)'], trig=['FILLED(d, q, rows, cols, data, n), FILLED(d2, q, rows, cols, data, n + 1)'])
    c.add(Contract('soynlp.utils.utils:get_process_memory', [], returns='real', assumed='it reads the memory use of the process'))
    c.loops[W + 'pmi_memory_friendly'] = [Loop(['FILLED(pmi_dok.entries, indices, rows, cols, data, _i)'])]
    c.add(Contract(W + 'pmi_memory_friendly', ps + [('verbose', 'bool')], alts={'py': ['none', row]}, paths=True, requires=req, chain=True, ensures=marg + [
        'forall(lambda i, j: implies((i, j) in result[0].entries and result[1][i] > 0 and result[2][j] + alpha > 0, result[0].entries[(i, j)] == %s and %s > 0 and result[0].entries[(i, j)] >= min_pmi))' % (pmi, p),
        reach % '(i, j) in result[0].entries']))
    return c
