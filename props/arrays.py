"""numpy arrays and scipy sparse matrices: trusted models of the operations the code uses (real arithmetic)."""
from .matrix import *
from pyvc.exec import Ext, Sym, Tup, Ref, CList, CObj, It, Unsupported, INT, REAL, zi, conc_int
from pyvc.theory import seqT, sort, Ty, LIST, DICT, TUP
import z3
from z3 import And, Or, Not, Implies, If

I = z3.IntSort()
RT, IT = seqT(z3.RealSort()), seqT(I)
seqof = lambda t: RT if t.k == 'real' else IT


def real(ex, v, st, node):
    t, x = ex.num(v, st, node)
    return z3.ToReal(x) if t.k == 'int' else x


def mapped(ex, st, t, n, f, pats=(), hint='arr'):
    """a fresh array of n entries, entry k is f(k)"""
    T = seqof(t)
    r = ex.fresh(T.sort, hint)
    k = ex.boundv(I, 'k')
    st.assume(T.len(r) == n)
    st.assume(z3.ForAll([k], Implies(And(0 <= k, k < n), T.at(r, k) == f(k)), patterns=[T.at(r, k)] + [p(k) for p in pats]))
    return r


def filtered(ex, st, n, pred, hint='idx'):
    """the increasing positions below n at which pred holds; the second result: all of them if it holds everywhere"""
    r, pos = ex.fresh(IT.sort, hint), ex.freshf('pos', I, I)
    k, j = ex.boundv(I, 'k'), ex.boundv(I, 'j')
    st.assume(And(0 <= IT.len(r), IT.len(r) <= n))
    st.assume(z3.ForAll([k], Implies(And(0 <= k, k < IT.len(r)), And(0 <= IT.at(r, k), IT.at(r, k) < n, pred(IT.at(r, k)), pos(IT.at(r, k)) == k)), patterns=[IT.at(r, k)]))
    st.assume(z3.ForAll([k, j], Implies(And(0 <= k, k < j, j < IT.len(r)), IT.at(r, k) < IT.at(r, j)), patterns=[z3.MultiPattern(IT.at(r, k), IT.at(r, j))]))
    p = pred(k)
    ps = [pos(k)] + [q for q in ex.pats([p], [k]) if isinstance(q, z3.PatternRef) or ex.covers(q, [k])]
    st.assume(z3.ForAll([k], Implies(And(0 <= k, k < n, p), And(0 <= pos(k), pos(k) < IT.len(r), IT.at(r, pos(k)) == k)), patterns=ps))
    w = ex.fresh(I, 'out')
    st.assume(Or(And(0 <= w, w < n, Not(pred(w))), And(IT.len(r) == n, z3.ForAll([k], Implies(And(0 <= k, k < n), IT.at(r, k) == k), patterns=[IT.at(r, k)]))))
    return r


class Bool1(Ext):
    """a one-dimensional array of truth values"""
    def __init__(self, n, pred): self.n, self.pred = n, pred
    def where(self, ex, st): return Nd(ex, INT, filtered(ex, st, self.n, self.pred))
    def method(self, ex, name, a, kw, st, node):
        if name == 'nonzero' and not a: return Tup([self.where(ex, st)])
        return Ext.method(self, ex, name, a, kw, st, node)
    def attr(self, ex, name, st, node):
        from pyvc.exec import BM
        return BM(self, name)
    def binop(self, ex, op, a, b, st, node):
        if op in ('BitAnd', 'BitOr') and isinstance(a, Bool1) and isinstance(b, Bool1):
            f = And if op == 'BitAnd' else Or
            return Bool1(a.n, lambda k: f(a.pred(k), b.pred(k)))
        return Ext.binop(self, ex, op, a, b, st, node)


class Nd(Ext):
    """an array: dim 'vec' (n,), 'row' (1, n) or 'col' (n, 1); matrix: a numpy.matrix"""
    def __init__(self, ex, t, x, dim='vec', matrix=False): self.t, self.x, self.dim, self.matrix = t, x, dim, matrix
    def T(self): return seqof(self.t)
    def n(self): return self.T().len(self.x)
    def at(self, k): return self.T().at(self.x, k)
    def realat(self, k): return z3.ToReal(self.at(k)) if self.t.k == 'int' else self.at(k)
    def like(self, ex, x, t=REAL): return Nd(ex, t, x, self.dim, self.matrix)
    def list(self, ex, st): return ex.alloc(st, CList(self.t, self.x))
    def map(self, ex, st, f, t=REAL): return self.like(ex, mapped(ex, st, t, self.n(), lambda k: f(self.realat(k) if t.k == 'real' else self.at(k)), [self.at]), t)
    def pack(self, ex, t, st):
        if t.k == 'list' and t.a[0] == self.t and self.dim == 'vec': return self.x
        if t.k == 'list' and t.a[0] == self.t: return self.x        # in specifications a row is its entries
        return Ext.pack(self, ex, t, st)
    def attr(self, ex, name, st, node):
        from pyvc.exec import BM
        if name == 'shape':
            n = ex.mkint(self.n())
            return Tup({'vec': [n], 'row': [1, n], 'col': [n, 1]}[self.dim])
        if name == 'size': return ex.mkint(self.n())
        if name == 'ndim': return 1 if self.dim == 'vec' else 2
        if name == 'entries' and ex.spec: return self.list(ex, st)
        if name in ('A1',) and self.matrix: return Nd(ex, self.t, self.x)
        if name in ('A',) and self.matrix: return Nd(ex, self.t, self.x, self.dim)
        if name == 'T': return Nd(ex, self.t, self.x, {'vec': 'vec', 'row': 'col', 'col': 'row'}[self.dim], self.matrix)
        return BM(self, name)
    def length(self, ex, st, node): return ex.mkint(self.n()) if self.dim != 'row' else 1
    def method(self, ex, name, a, kw, st, node):
        if name == 'reshape':
            a = [ex.static_items(a[0], st, node)] if len(a) == 1 and isinstance(a[0], (Tup, tuple)) else [a]
            ks = [x if isinstance(x, int) else None for x in a[0]]
            if ks == [-1]: return Nd(ex, self.t, self.x, 'row' if self.matrix else 'vec', self.matrix)
            if ks == [1, -1]: return Nd(ex, self.t, self.x, 'row', self.matrix)
            if ks == [-1, 1]: return Nd(ex, self.t, self.x, 'col', self.matrix)
        if name in ('ravel', 'flatten') and not a: return Nd(ex, self.t, self.x, 'row' if self.matrix else 'vec', self.matrix)
        if name == 'copy' and not a: return self
        if name == 'astype' and self.t.k == 'real': return self
        if name == 'tolist' and not a:
            if self.dim == 'vec': return self.list(ex, st)
            from pyvc.exec import CPy
            if self.dim == 'row': return ex.alloc(st, CPy([self.list(ex, st)]))
        if name == 'sum' and not a and not kw: return Sym(self.t, ex.ctx.specfns['TOTAL'].f(self.x, self.n()) if self.t.k == 'real' else None) if self.t.k == 'real' else Ext.method(self, ex, name, a, kw, st, node)
        return Ext.method(self, ex, name, a, kw, st, node)
    def binop(self, ex, op, a, b, st, node):
        if a is self and not isinstance(b, Ext):
            y = real(ex, b, st, node)
            if op == 'Div':
                ex.require(st, y != 0, 'division of an array by zero', node)
                return self.map(ex, st, lambda v: v / y)
            if op == 'Mult': return self.map(ex, st, lambda v: v * y)
            if op == 'Add': return self.map(ex, st, lambda v: v + y)
            if op == 'Sub': return self.map(ex, st, lambda v: v - y)
            if op == 'Pow' and not self.matrix: return self.map(ex, st, lambda v: ex.ctx.specfns['POW'].f(v, y))
        elif b is self and not isinstance(a, Ext):
            y = real(ex, a, st, node)
            if op == 'Mult': return self.map(ex, st, lambda v: y * v)
            if op == 'Add': return self.map(ex, st, lambda v: y + v)
        return Ext.binop(self, ex, op, a, b, st, node)
    def compare(self, ex, op, a, b, st, node):
        if a is self and not isinstance(b, Ext): v, y = self.realat, real(ex, b, st, node)
        elif b is self and not isinstance(a, Ext):
            v, y = self.realat, real(ex, a, st, node)
            op = {'Lt': 'Gt', 'Gt': 'Lt', 'LtE': 'GtE', 'GtE': 'LtE'}.get(op, op)
        else: return Ext.compare(self, ex, op, a, b, st, node)
        f = {'GtE': lambda k: v(k) >= y, 'Gt': lambda k: v(k) > y, 'LtE': lambda k: v(k) <= y, 'Lt': lambda k: v(k) < y, 'Eq': lambda k: v(k) == y, 'NotEq': lambda k: v(k) != y}.get(op)
        if f is None or self.dim != 'vec': raise Unsupported('comparison of arrays', node)
        return Bool1(self.n(), f)
    def index(self, ex, k, st, node):
        if self.dim == 'row' and isinstance(k, int) and k in (0, -1): return Nd(ex, self.t, self.x, 'row' if self.matrix else 'vec', self.matrix)
        if ex.spec and not isinstance(k, Ext): return ex.unpack(self.at(ex.num(k, st, node)[1]), self.t, st)      # in specifications a row is its entries
        if self.dim != 'vec': raise Unsupported('item of a two-dimensional array', node)
        if isinstance(k, Bool1):
            ex.require(st, k.n == self.n(), 'IndexError (mask)', node)
            k = k.where(ex, st)
        if isinstance(k, Nd) and k.t.k == 'int' and k.dim == 'vec':
            j = ex.boundv(I, 'j')
            ex.require(st, z3.ForAll([j], Implies(And(0 <= j, j < k.n()), And(-self.n() <= k.at(j), k.at(j) < self.n())), patterns=[k.at(j)]), 'IndexError', node)
            r, T = ex.fresh(self.T().sort, 'arr'), self.T()
            st.assume(T.len(r) == k.n())
            st.assume(z3.ForAll([j], Implies(And(0 <= j, j < k.n()), And(Implies(k.at(j) >= 0, T.at(r, j) == self.at(k.at(j))), Implies(k.at(j) < 0, T.at(r, j) == self.at(k.at(j) + self.n())))), patterns=[T.at(r, j), k.at(j)]))
            return Nd(ex, self.t, r)
        if isinstance(k, Ext): raise Unsupported('item', node)
        q = ex.num(k, st, node)[1]
        ex.require(st, And(-self.n() <= q, q < self.n()), 'IndexError', node)
        return ex.unpack(self.at(If(q < 0, q + self.n(), q)), self.t, st)
    def iter(self, ex, st, node):
        if self.dim != 'vec': raise Unsupported('iteration over rows', node)
        return It(self.n(), lambda i: ex.unpack(self.at(zi(i)), self.t, ex.cst or st), self, trig=lambda i: self.at(i))


def vec(ex, v, st, node, t=REAL):
    """the entries of a list or one-dimensional array"""
    if isinstance(v, Nd) and v.dim == 'vec': return v
    if ex.isref(v):
        c = ex.tolist(ex.content(v, st), st)
        if isinstance(c, CList):
            if c.t.k in ('int', 'real'): return Nd(ex, c.t, c.x)
            if c.t.k == 'unk': return Nd(ex, t, seqof(t).empty)
    raise Unsupported('array of other values', node)


def asreal(ex, v, st): return v if v.t.k == 'real' else v.map(ex, st, lambda x: x)


class DiagData(Ext):
    def __init__(self, d): self.d = d
    def index(self, ex, k, st, node):
        if k == 0 and isinstance(k, int): return st.heap[self.d.ref.c].fields['d']
        return Ext.index(self, ex, k, st, node)
    def setitem(self, ex, k, v, st, node):
        if k != 0 or not isinstance(k, int): return Ext.setitem(self, ex, k, v, st, node)
        v = asreal(ex, vec(ex, v, st, node), st)
        ex.require(st, v.n() == self.index(ex, 0, st, node).n(), 'ValueError (length of the diagonal)', node)
        st.heap[self.d.ref.c] = CObj('diag', {'d': v})


class Diag(Ext):
    """a diagonal matrix; its entries can be replaced"""
    def __init__(self, ref): self.ref = ref
    def d(self, st): return st.heap[self.ref.c].fields['d']
    def attr(self, ex, name, st, node):
        from pyvc.exec import BM
        if name == 'data': return DiagData(self)
        if name == 'shape':
            n = ex.mkint(self.d(st).n())
            return Tup([n, n])
        return BM(self, name)
    def method(self, ex, name, a, kw, st, node):
        if name == 'dot' and len(a) == 1: return product(ex, self, a[0], st, node)
        return Ext.method(self, ex, name, a, kw, st, node)
    def binop(self, ex, op, a, b, st, node):
        if op == 'MatMult': return product(ex, a, b, st, node)
        return Ext.binop(self, ex, op, a, b, st, node)


class Mat(Ext):
    """a sparse matrix: its stored entries in storage order (n, m: terms)"""
    def __init__(self, data, rows, cols, n, m): self.data, self.rows, self.cols, self.n, self.m = data, rows, cols, n, m
    def cell(self, ex, i, j): return ex.ctx.specfns['CELL'].f(self.data, self.rows, self.cols, RT.len(self.data), i, j)
    def attr(self, ex, name, st, node):
        from pyvc.exec import BM
        if name == 'shape': return Tup([ex.mkint(self.n), ex.mkint(self.m)])
        if name == 'data': return Nd(ex, REAL, self.data)
        if name == 'nnz': return ex.mkint(RT.len(self.data))
        if ex.spec and name in ('rows', 'cols'): return Nd(ex, INT, getattr(self, name))
        return BM(self, name)
    def method(self, ex, name, a, kw, st, node):
        S = ex.ctx.specfns
        ln = RT.len(self.data)
        if name == 'sum' and not a:
            ax = kw.get('axis')
            if not kw: return Sym(REAL, S['TOTAL'].f(self.data, ln))
            if set(kw) == {'axis'} and isinstance(ax, int) and ax in (0, 1, -1, -2):
                by, n, dim = (self.cols, self.m, 'row') if ax in (0, -2) else (self.rows, self.n, 'col')
                MS = S['MARGIN'].f
                k = ex.boundv(I, 'k')
                x = ex.fresh(RT.sort, 'margin')
                st.assume(RT.len(x) == n)
                st.assume(z3.ForAll([k], Implies(And(0 <= k, k < n), RT.at(x, k) == MS(self.data, by, ln, k)), patterns=[RT.at(x, k), MS(self.data, by, ln, k)]))
                return Nd(ex, REAL, x, dim, True)
        if name == 'nonzero' and not a:
            idx = filtered(ex, st, ln, lambda k: RT.at(self.data, k) != 0, 'nz')
            f = lambda q: Nd(ex, INT, mapped(ex, st, INT, IT.len(idx), lambda k: IT.at(q, IT.at(idx, k)), [lambda k: IT.at(idx, k)]))
            return Tup([f(self.rows), f(self.cols)])
        if name == 'dot' and len(a) == 1: return product(ex, self, a[0], st, node)
        if name in ('tocsr', 'copy') and not a: return self
        return Ext.method(self, ex, name, a, kw, st, node)
    def binop(self, ex, op, a, b, st, node):
        if op == 'MatMult': return product(ex, a, b, st, node)
        if a is self and not isinstance(b, Ext) and op == 'Div':
            y = real(ex, b, st, node)
            ex.require(st, y != 0, 'division of a matrix by zero', node)
            r = mapped(ex, st, REAL, RT.len(self.data), lambda k: RT.at(self.data, k) / y, [lambda k: RT.at(self.data, k)])
            st.assume(ex.ctx.specfns['SCALED'].f(r, self.data, y))
            return Mat(r, self.rows, self.cols, self.n, self.m)
        return Ext.binop(self, ex, op, a, b, st, node)


def product(ex, a, b, st, node):
    """a diagonal matrix times a sparse one or the other way round: no position twice, no zero stored"""
    S = ex.ctx.specfns
    if isinstance(a, Diag) and isinstance(b, Mat): d, A, left = a.d(st), b, True
    elif isinstance(a, Mat) and isinstance(b, Diag): d, A, left = b.d(st), a, False
    else: raise Unsupported('matrix product', node)
    ex.require(st, d.n() == (A.n if left else A.m), 'ValueError (shapes)', node)
    R = Mat(ex.fresh(RT.sort, 'data'), ex.fresh(IT.sort, 'rows'), ex.fresh(IT.sort, 'cols'), A.n, A.m)
    ln = RT.len(R.data)
    i, j, k = (ex.boundv(I, n) for n in 'ijk')
    st.assume(And(IT.len(R.rows) == ln, IT.len(R.cols) == ln, S['INSIDE'].f(R.rows, A.n), S['INSIDE'].f(R.cols, A.m), S['DISTINCT'].f(R.rows, R.cols)))
    st.assume(z3.ForAll([i, j], Implies(And(0 <= i, i < A.n, 0 <= j, j < A.m), R.cell(ex, i, j) == S['MUL'].f(d.at(i if left else j), A.cell(ex, i, j))), patterns=[R.cell(ex, i, j), A.cell(ex, i, j)]))
    st.assume(z3.ForAll([k], Implies(And(0 <= k, k < ln), And(RT.at(R.data, k) == R.cell(ex, IT.at(R.rows, k), IT.at(R.cols, k)), RT.at(R.data, k) != 0)), patterns=[RT.at(R.data, k), IT.at(R.rows, k)]))
    st.assume(z3.ForAll([i, j], Implies(R.cell(ex, i, j) != 0, S['STORED'].f(R.rows, R.cols, i, j)), patterns=[R.cell(ex, i, j)]))
    return R


def tomatrix(ex, a, kw, st, node):
    """csr_matrix((data, (rows, cols)), shape=(n, m))"""
    if len(a) == 1 and isinstance(a[0], Mat) and not kw: return a[0]
    if len(a) != 1 or not isinstance(a[0], Tup) or len(a[0].items) != 2 or not isinstance(a[0].items[1], Tup) or set(kw) != {'shape'} or not isinstance(kw['shape'], Tup): raise Unsupported('csr_matrix with other arguments', node)
    data, rows, cols = asreal(ex, vec(ex, a[0].items[0], st, node), st), *(vec(ex, x, st, node, INT) for x in a[0].items[1].items)
    n, m = (ex.num(x, st, node)[1] for x in kw['shape'].items)
    ex.require(st, And(data.n() == rows.n(), data.n() == cols.n()), 'ValueError (lengths)', node)
    i = ex.boundv(I, 'i')
    for q, b in ((rows, n), (cols, m)):
        if q.t.k != 'int': raise Unsupported('csr_matrix of other values', node)
        ex.require(st, z3.ForAll([i], Implies(And(0 <= i, i < q.n()), And(0 <= q.at(i), q.at(i) < b)), patterns=[q.at(i)]), 'ValueError (index outside the shape)', node)
    return Mat(data.x, rows.x, cols.x, n, m)


class Dok(Ext):
    """a dok_matrix under construction: a dictionary from positions to values (a stored value of 0 counts as an entry)"""
    def __init__(self, ref, n, m): self.ref, self.n, self.m = ref, n, m
    def attr(self, ex, name, st, node):
        from pyvc.exec import BM
        if name == 'shape': return Tup([ex.mkint(self.n), ex.mkint(self.m)])
        if name == 'entries' and ex.spec: return self.ref
        return BM(self, name)
    def setitem(self, ex, k, v, st, node):
        i, j = (ex.num(x, st, node)[1] for x in ex.static_items(k, st, node))
        ex.require(st, And(-self.n <= i, i < self.n, -self.m <= j, j < self.m), 'IndexError', node)
        i, j = (Sym(INT, If(x < 0, x + b, x)) for x, b in ((i, self.n), (j, self.m)))
        ex.setitem(self.ref, Tup([i, j]), Sym(REAL, real(ex, v, st, node)), st, node)


def dok(ex, a, kw, st, node):
    if len(a) != 1 or kw or not isinstance(a[0], Tup) or len(a[0].items) != 2: raise Unsupported('dok_matrix with other arguments', node)
    n, m = (ex.num(x, st, node)[1] for x in a[0].items)
    t = DICT(TUP(INT, INT), REAL)
    from pyvc.exec import CDict
    return Dok(ex.alloc(st, CDict(t.a[0], t.a[1], z3.K(sort(t.a[0]), z3.BoolVal(False)), ex.fresh(z3.ArraySort(sort(t.a[0]), z3.RealSort()), 'dv'))), n, m)


def asarray(ex, a, kw, st, node):
    if len(a) != 1 or kw: raise Unsupported('asarray', node)
    v = a[0]
    if isinstance(v, Nd): return Nd(ex, v.t, v.x, v.dim)
    return vec(ex, v, st, node)


def where(ex, a, kw, st, node):
    if len(a) != 1 or kw or not isinstance(a[0], Bool1): raise Unsupported('where', node)
    return Tup([a[0].where(ex, st)])


def elementwise(fn):
    def f(ex, a, kw, st, node):
        if len(a) != 1 or kw: raise Unsupported(fn, node)
        g = ex.ctx.specfns[fn].f
        if isinstance(a[0], Nd): return a[0].map(ex, st, lambda v: g(v))
        if isinstance(a[0], Ext): raise Unsupported(fn, node)
        return Sym(REAL, g(real(ex, a[0], st, node)))
    return f


def diags(ex, a, kw, st, node):
    if len(a) != 1 or kw: raise Unsupported('diags', node)
    return Diag(ex.alloc(st, CObj('diag', {'d': asreal(ex, vec(ex, a[0], st, node), st)})))


def power(ex, a, kw, st, node): return ex.binop('Pow', a[0], a[1], st, node)


def matrix(ex, st, hint='X'):
    """an arbitrary sparse matrix"""
    return Mat(ex.fresh(RT.sort, hint), ex.fresh(IT.sort, 'rows'), ex.fresh(IT.sort, 'cols'), ex.fresh(I, 'n'), ex.fresh(I, 'm'))


def arrays(c):
    triples(c, 'real')
    Q, L, N = [('q', 'list[int]')], 'list[real]', ('n', 'int')
    R2 = [('rows', 'list[int]'), ('cols', 'list[int]')]
    c.externs.update({'scipy.sparse.csr_matrix': tomatrix, 'scipy.sparse.diags': diags, 'scipy.sparse.dok_matrix': dok, 'numpy.asarray': asarray, 'numpy.array': asarray, 'numpy.where': where, 'numpy.log': elementwise('LOG'), 'numpy.exp': elementwise('EXP'), 'numpy.power': power})
    c.fn('TOTAL', [('v', L), N], 'real', 'ite(n <= 0, 0, TOTAL(v, n - 1) + v[n - 1])')
    # the sum of the entries in row (or column) i
    c.fn('MARGIN', [('v', L), ('by', 'list[int]'), N, ('i', 'int')], 'real', 'ite(n <= 0, 0, MARGIN(v, by, n - 1, i) + ite(by[n - 1] == i, v[n - 1], 0))')
    c.fn('MUL', [('x', 'real'), ('y', 'real')], 'real', 'x * y', hidden=True)
    c.lemma('mulzero', [('x', 'real'), ('y', 'real')], [], ['(MUL(x, y) != 0) == (x != 0 and y != 0)'], trig=['MUL(x, y)'])
    c.fn('SCALED', [('r', L), ('v', L), ('s', 'real')], 'bool', 'len(r) == len(v) and forall(lambda k: implies(0 <= k < len(v), r[k] == v[k] / s), trig=(r[k], v[k]))')
    c.fn('DISTINCT', R2, 'bool', 'forall(lambda i, j: implies(0 <= i < j < len(rows), rows[i] != rows[j] or cols[i] != cols[j]))')
    c.fn('STORED', R2 + [('i', 'int'), ('j', 'int')], 'bool', 'exists(lambda k: 0 <= k < len(rows) and rows[k] == i and cols[k] == j)')
    for f, ps in (('LOG', 1), ('EXP', 1), ('POW', 2)): c.fn(f, [('x', 'real'), ('y', 'real')][:ps], 'real')
    x, m = ('x', 'real'), ('m', 'real')
    c.lemma('logexp', [x, m], ['x > 0'], ['(x >= EXP(m)) == (LOG(x) >= m)'], trig=['LOG(x), EXP(m)'], assumed=True)
    c.lemma('logone', [x], ['x > 0'], ['(x >= 1) == (LOG(x) >= 0)'], trig=['LOG(x)'], assumed=True)
    c.lemma('exppos', [m], [], ['EXP(m) > 0'], trig=['EXP(m)'], assumed=True)
    c.lemma('pow', [x, ('y', 'real')], ['x >= 0', 'y > 0'], ['POW(x, y) >= 0', '(POW(x, y) == 0) == (x == 0)'], trig=['POW(x, y)'], assumed=True)
