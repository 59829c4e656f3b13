"""Sparse matrices built from triples: the model of scipy.sparse.csr_matrix and the entry it denotes."""
from .common import *
from pyvc.exec import Tup

CSR = 'tup[list[real],list[int],list[int],int,int]'
CSRI = 'tup[list[int],list[int],list[int],int,int]'


def csr_matrix(ex, a, kw, st, node):
    """the constructor from triples: as many rows and columns as data, inside the shape"""
    from pyvc.exec import Unsupported, And, z3, zi
    from pyvc.theory import seqT, sort
    if len(a) != 1 or not isinstance(a[0], Tup) or len(a[0].items) != 2 or not isinstance(a[0].items[1], Tup) or set(kw) != {'shape'} or not isinstance(kw['shape'], Tup): raise Unsupported('csr_matrix with other arguments', node)
    data, (rows, cols) = a[0].items[0], a[0].items[1].items
    n, m = kw['shape'].items
    l = [ex.length(x, st, node) for x in (data, rows, cols)]
    num = lambda v: ex.num(v, st, node)[1]
    ex.require(st, And(num(l[0]) == num(l[1]), num(l[0]) == num(l[2])), 'ValueError (lengths)', node)
    from pyvc.exec import INT
    for q, b in ((rows, n), (cols, m)):
        c = ex.tolist(ex.content(q, st), st) if ex.isref(q) else None
        if c is None: raise Unsupported('csr_matrix of other values', node)
        if c.t.k == 'unk': continue
        T = seqT(sort(c.t))
        i = z3.Int('i!csr')
        ex.require(st, z3.ForAll([i], z3.Implies(And(0 <= i, i < T.len(c.x)), And(0 <= T.at(c.x, i), T.at(c.x, i) < num(b))), patterns=[T.at(c.x, i)]), 'ValueError (index outside the shape)', node)
    return Tup([data, rows, cols, n, m])


def triples(c, t):
    """CELL(data, rows, cols, n, i, j): the sum of the first n data at (i, j); INSIDE(q, n): every index is below n"""
    c.externs['scipy.sparse.csr_matrix'] = csr_matrix
    TR = [('data', 'list[%s]' % t), ('rows', 'list[int]'), ('cols', 'list[int]')]
    c.fn('CELL', TR + [('n', 'int'), ('i', 'int'), ('j', 'int')], t, 'ite(n <= 0, 0, CELL(data, rows, cols, n - 1, i, j) + ite(rows[n - 1] == i and cols[n - 1] == j, data[n - 1], 0))')
    c.lemma('cellpush', TR + [('d', t), ('r', 'int'), ('k', 'int'), ('n', 'int'), ('i', 'int'), ('j', 'int')], ['n <= len(data)', 'n <= len(rows)', 'n <= len(cols)'], ['CELL(data + [d], rows + [r], cols + [k], n, i, j) == CELL(data, rows, cols, n, i, j)'], measure='n', trig=['CELL(data + [d], rows + [r], cols + [k], n, i, j)'])
    c.lemma('cellone', TR + [('d', t), ('r', 'int'), ('k', 'int'), ('n', 'int'), ('i', 'int'), ('j', 'int')], ['n == len(data) + 1', 'len(rows) == len(data)', 'len(cols) == len(data)'], ['CELL(data + [d], rows + [r], cols + [k], n, i, j) == CELL(data, rows, cols, len(data), i, j) + ite(r == i and k == j, d, 0)'], trig=['CELL(data + [d], rows + [r], cols + [k], n, i, j)'])
    c.fn('INSIDE', [('q', 'list[int]'), ('n', 'int')], 'bool', 'forall(lambda i: implies(0 <= i < len(q), 0 <= q[i] and q[i] < n))')
    c.lemma('inside', [('q', 'list[int]'), ('x', 'int'), ('n', 'int')], [], ['iff(INSIDE(q + [x], n), INSIDE(q, n) and 0 <= x and x < n)'], trig=['INSIDE(q + [x], n)'])


def ranks(c):
    """as many different increasing values below n as there are: the k-th is k"""
    Q = [('q', 'list[tup[str,int]]'), ('k', 'int')]
    inc = ['0 <= k < len(q)', 'forall(lambda i, j: implies(0 <= i < j < len(q), q[i][1] < q[j][1]))', 'forall(lambda i: implies(0 <= i < len(q), 0 <= q[i][1] and q[i][1] < len(q)))']
    c.fn('ABOVE', Q, 'bool', 'q[k][1] >= k')
    c.fn('BELOW', Q, 'bool', 'q[len(q) - 1 - k][1] <= len(q) - 1 - k')
    c.lemma('above', Q, inc, ['ABOVE(q, k)'], measure='k', hints=['implies(k > 0, ABOVE(q, k - 1))', 'implies(k > 0, q[k - 1][1] < q[k][1])'], trig=['ABOVE(q, k)'])
    c.lemma('below', Q, inc, ['BELOW(q, k)'], measure='k', hints=['implies(k > 0, BELOW(q, k - 1))', 'implies(k > 0, q[len(q) - 1 - k][1] < q[len(q) - k][1])'], trig=['BELOW(q, k)'])
    c.lemma('ranks', [('q', 'list[tup[str,int]]'), ('k', 'int')], ['0 <= k < len(q)', 'forall(lambda i, j: implies(0 <= i < j < len(q), q[i][1] < q[j][1]))', 'forall(lambda i: implies(0 <= i < len(q), 0 <= q[i][1] and q[i][1] < len(q)))'], ['q[k][1] == k'], trig=['q[k]'], pull=True,
            hints=['ABOVE(q, k)', 'BELOW(q, len(q) - 1 - k)'])
