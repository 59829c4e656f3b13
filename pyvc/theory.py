"""Logical theory: finite sequences, tuples, sets and dictionaries over z3.

All sequence reasoning goes through uninterpreted sorts Seq[T] with explicitly
triggered axioms (E-matching only, no model-based quantifier instantiation)."""
import sys
import z3
import z3.z3 as _zz

Z = z3
sys.setrecursionlimit(100000)

# The Python binding of z3 5.3 releases the terms of a pattern once too often, which corrupts quantifiers whose
# pattern terms occur nowhere else; keeping every pattern (and its terms) alive avoids it.
_kept = []
_mp0 = _zz.MultiPattern


def _mp(*args):
    p = _mp0(*args)
    _kept.append((args, p))
    return p


_zz.MultiPattern = z3.MultiPattern = _mp


class Ty:
    """Static type of a symbolic value."""
    __slots__ = ('k', 'a', 'names', 'cls')

    def __init__(self, k, a=(), names=None, cls=None):
        self.k, self.a, self.names, self.cls = k, tuple(a), names, cls

    def __eq__(self, o):
        return isinstance(o, Ty) and self.k == o.k and self.a == o.a

    def __hash__(self):
        return hash((self.k, self.a))

    def __repr__(self):
        return self.k if not self.a else '%s[%s]' % (self.k, ','.join(map(repr, self.a)))


INT, BOOL, REAL, STR = Ty('int'), Ty('bool'), Ty('real'), Ty('str')
CHAR = Ty('char')          # parameter type only: a one-character string
NONE = Ty('none')
def TUP(*a, names=None, cls=None): return Ty('tup', a, names, cls)
def LIST(a): return Ty('list', (a,))
def SET(a): return Ty('set', (a,))
def DICT(k, v): return Ty('dict', (k, v))
def OPT(a): return Ty('opt', (a,))
def FUN(args, res): return Ty('fun', tuple(args) + (res,))
def ABS(name): return Ty('abs', (name,))      # an opaque hashable value


class OpenRow:
    """marks tuples that stand for lists used as records: the first entries are fixed, further ones are not tracked"""
    fields = ()
    nonneg = True     # further entries are scores: no negative numbers


OPEN = OpenRow()
_abs = {}


def sname(s):
    return str(s).replace(' ', '').replace('(', '<').replace(')', '>').replace(',', '_')


class SeqT:
    def __init__(self, es):
        self.es = es
        n = sname(es)
        self.name = 'Seq_' + n
        self.sort = Z.DeclareSort(self.name)
        S, I = self.sort, Z.IntSort()
        f = lambda nm, *a: Z.Function(nm + '@' + n, *a)
        self.len = f('len', S, I)
        self.at = f('at', S, I, es)
        self.cat = f('cat', S, S, S)
        self.sub = f('sub', S, I, I, S)
        self.unit = f('unit', es, S)
        self.app = f('app', S, es, S)
        self.upd = f('upd', S, I, es, S)
        self.eq = f('eq', S, S, Z.BoolSort())
        self.sk = f('sk', S, S, I)
        self.has = f('has', S, es, Z.BoolSort())      # membership
        self.hasi = f('hasi', S, es, I)
        self.empty = Z.Const('empty@' + n, S)
        self._ax = None

    def axioms(self):
        if self._ax is not None:
            return self._ax
        s, t = Z.Consts('s t', self.sort)
        i, j, b, e, c, d = Z.Ints('i j b e c d')
        x = Z.Const('x', self.es)
        L, AT, CAT, SUB, U, APP, UPD, EQ = self.len, self.at, self.cat, self.sub, self.unit, self.app, self.upd, self.eq
        A = []
        fa = lambda vs, body, *pats: A.append(Z.ForAll(vs, body, patterns=list(pats)))
        fa([s], L(s) >= 0, L(s))
        A.append(L(self.empty) == 0)
        fa([s], Z.Implies(L(s) == 0, s == self.empty), L(s))
        fa([x], Z.And(L(U(x)) == 1, AT(U(x), 0) == x), U(x))
        fa([s, t], L(CAT(s, t)) == L(s) + L(t), CAT(s, t))
        fa([s, t], Z.And(Z.Implies(L(s) == 0, CAT(s, t) == t), Z.Implies(L(t) == 0, CAT(s, t) == s)), CAT(s, t))
        fa([s, t, i], AT(CAT(s, t), i) == Z.If(i < L(s), AT(s, i), AT(t, i - L(s))), AT(CAT(s, t), i))
        if self.es != Z.IntSort():
            fa([s, t, i], Z.Implies(Z.And(0 <= i, i < L(s)), AT(CAT(s, t), i) == AT(s, i)), Z.MultiPattern(AT(s, i), CAT(s, t)))
            fa([s, t, i], Z.Implies(Z.And(0 <= i, i < L(t)), AT(CAT(s, t), L(s) + i) == AT(t, i)), Z.MultiPattern(AT(t, i), CAT(s, t)))
        # slices: begin and end are never negative
        fa([s, b, e], Z.And(
            Z.Implies(Z.And(0 <= b, b <= e, e <= L(s)), L(SUB(s, b, e)) == e - b),
            Z.Implies(Z.And(0 <= b, b <= L(s), e > L(s)), SUB(s, b, e) == SUB(s, b, L(s))),
            Z.Implies(Z.Or(b >= e, b >= L(s)), SUB(s, b, e) == self.empty),
            Z.Implies(Z.And(b == 0, e == L(s)), SUB(s, b, e) == s),
            Z.Implies(Z.And(0 <= b, e == b + 1, e <= L(s)), SUB(s, b, e) == U(AT(s, b)))), SUB(s, b, e))
        fa([s, b, e, i], Z.Implies(Z.And(0 <= b, b <= e, e <= L(s), 0 <= i, i < e - b),
                                   AT(SUB(s, b, e), i) == AT(s, b + i)), AT(SUB(s, b, e), i))
        fa([s, b, e, j], Z.Implies(Z.And(0 <= b, b <= j, j < e, e <= L(s)),
                                   AT(SUB(s, b, e), j - b) == AT(s, j)), Z.MultiPattern(AT(s, j), SUB(s, b, e)))
        fa([s, b, e, c, d], Z.Implies(Z.And(0 <= b, b <= e, e <= L(s), 0 <= c, c <= d, d <= e - b),
                                      SUB(SUB(s, b, e), c, d) == SUB(s, b + c, b + d)), SUB(SUB(s, b, e), c, d))
        fa([s, b, e, c, d], Z.Implies(Z.And(0 <= b, b <= e, e == c, c <= d, d <= L(s)),
                                      CAT(SUB(s, b, e), SUB(s, c, d)) == SUB(s, b, d)), CAT(SUB(s, b, e), SUB(s, c, d)))
        fa([s, t, b, e], Z.And(Z.Implies(Z.And(0 <= b, e <= L(s)), SUB(CAT(s, t), b, e) == SUB(s, b, e)),
                               Z.Implies(b >= L(s), SUB(CAT(s, t), b, e) == SUB(t, b - L(s), e - L(s)))),
           SUB(CAT(s, t), b, e))
        fa([s, x], Z.And(L(APP(s, x)) == L(s) + 1, AT(APP(s, x), L(s)) == x), APP(s, x))
        fa([s, x, i], AT(APP(s, x), i) == Z.If(i == L(s), x, AT(s, i)), AT(APP(s, x), i))
        fa([s, x, i], Z.Implies(Z.And(0 <= i, i < L(s)), AT(APP(s, x), i) == AT(s, i)),
           Z.MultiPattern(AT(s, i), APP(s, x)))
        fa([s, i, x], L(UPD(s, i, x)) == L(s), UPD(s, i, x))
        fa([s, i, x, j], AT(UPD(s, i, x), j) == Z.If(Z.And(i == j, 0 <= i, i < L(s)), x, AT(s, j)), AT(UPD(s, i, x), j))
        fa([s, t], EQ(s, t) == (s == t), EQ(s, t))
        k = self.sk(s, t)
        fa([s, t], Z.Or(EQ(s, t), L(s) != L(t), Z.And(0 <= k, k < L(s), AT(s, k) != AT(t, k))), EQ(s, t))
        fa([s, x], Z.Implies(self.has(s, x), Z.And(0 <= self.hasi(s, x), self.hasi(s, x) < L(s),
                                                   AT(s, self.hasi(s, x)) == x)), self.has(s, x))
        fa([s, x, i], Z.Implies(Z.And(0 <= i, i < L(s), AT(s, i) == x), self.has(s, x)),
           Z.MultiPattern(self.has(s, x), AT(s, i)))
        self._ax = A
        return A


_seq = {}


def seqT(es):
    n = sname(es)
    if n not in _seq:
        _seq[n] = SeqT(es)
    return _seq[n]


_tup = {}


def tup_sort(sorts):
    n = 'Tup_' + '_'.join(sname(s) for s in sorts)
    if n not in _tup:
        d = Z.Datatype(n)
        d.declare('mk_' + n, *[('f%d_%s' % (i, n), s) for i, s in enumerate(sorts)])
        _tup[n] = d.create()
    return _tup[n]


_opt = {}


def opt_sort(s):
    n = 'Opt_' + sname(s)
    if n not in _opt:
        d = Z.Datatype(n)
        d.declare('none_' + n)
        d.declare('some_' + n, ('val_' + n, s))
        _opt[n] = d.create()
    return _opt[n]


_dict = {}


def dict_sort(k, v):
    n = 'Dict_%s_%s' % (sname(k), sname(v))
    if n not in _dict:
        d = Z.Datatype(n)
        d.declare('mk_' + n, ('dom_' + n, Z.ArraySort(k, Z.BoolSort())), ('val_' + n, Z.ArraySort(k, v)))
        _dict[n] = d.create()
    return _dict[n]


def sort(t):
    k = t.k
    if k == 'int': return Z.IntSort()
    if k == 'bool': return Z.BoolSort()
    if k == 'real': return Z.RealSort()
    if k in ('str', 'char'): return seqT(Z.IntSort()).sort
    if k == 'none': return Z.BoolSort()
    if k == 'tup': return tup_sort([sort(x) for x in t.a])
    if k == 'list': return seqT(sort(t.a[0])).sort
    if k == 'set': return Z.ArraySort(sort(t.a[0]), Z.BoolSort())
    if k == 'dict': return dict_sort(sort(t.a[0]), sort(t.a[1]))
    if k == 'opt': return opt_sort(sort(t.a[0]))
    if k == 'abs':
        if t.a[0] not in _abs:
            _abs[t.a[0]] = Z.DeclareSort('Abs_' + t.a[0])
        return _abs[t.a[0]]
    raise ValueError('no sort for %r' % (t,))


STRT = seqT(Z.IntSort())

# ---- string constants -------------------------------------------------------
_consts = {}


def sconst(s):
    if s == '':
        return STRT.empty
    if len(s) == 1:
        return STRT.unit(Z.IntVal(ord(s)))
    if s not in _consts:
        c = Z.Const('lit!%d!%s' % (len(_consts), ''.join('%x.' % ord(ch) for ch in s[:12])), STRT.sort)
        _consts[s] = (c, [STRT.len(c) == len(s)] + [STRT.at(c, i) == ord(ch) for i, ch in enumerate(s)])
    return _consts[s][0]


def lit_axioms(terms_names):
    return [f for c, fs in _consts.values() if c.decl().name() in terms_names for f in fs]


def codes(t):
    """Concrete code points of a string term, when it is a literal; else None."""
    if t.eq(STRT.empty):
        return ()
    if Z.is_app(t) and t.decl().eq(STRT.unit) and Z.is_int_value(t.arg(0)):
        return (t.arg(0).as_long(),)
    for s, (c, _) in _consts.items():
        if c.eq(t):
            return tuple(map(ord, s))
    return None


def is_unit(t):
    return Z.is_app(t) and t.num_args() == 1 and t.decl().name().startswith('unit@')


# ---- dictionary sums --------------------------------------------------------
_dsum = {}


def dsum(ks, vs):
    n = sname(ks) + '_' + sname(vs)
    if n not in _dsum:
        _dsum[n] = Z.Function('dsum@' + n, Z.ArraySort(ks, Z.BoolSort()), Z.ArraySort(ks, vs), vs)
    return _dsum[n]


def dsum_axioms(names):
    A = []
    for n, f in _dsum.items():
        if f.name() not in names:
            continue
        d0, v0 = f.domain(0), f.domain(1)
        d = Z.Const('d', d0); v = Z.Const('v', v0); k = Z.Const('k', d0.domain()); x = Z.Const('x', v0.range())
        zero = Z.IntVal(0) if v0.range() == Z.IntSort() else Z.RealVal(0)
        old = Z.If(Z.Select(d, k), Z.Select(v, k), zero)
        A.append(Z.ForAll([v], f(Z.K(d0.domain(), False), v) == zero, patterns=[f(Z.K(d0.domain(), False), v)]))
        l = f(Z.Store(d, k, True), Z.Store(v, k, x))
        A.append(Z.ForAll([d, v, k, x], l == f(d, v) - old + x, patterns=[l]))
        l = f(Z.Store(d, k, False), v)
        A.append(Z.ForAll([d, v, k], l == f(d, v) - old, patterns=[l]))
        l = f(d, Z.Store(v, k, x))
        A.append(Z.ForAll([d, v, k, x], l == f(d, v) - old + Z.If(Z.Select(d, k), x, zero), patterns=[l]))
        # a part of a dictionary of non-negative numbers has a smaller sum
        e, u = Z.Const('e', d0), Z.Const('u', v0)
        w = Z.Function('dsum_w' + f.name()[4:], d0, v0, d0, v0, d0.domain())(d, v, e, u)
        A.append(Z.ForAll([d, v, e, u], Z.Or(Z.And(d[w], Z.Or(Z.Not(e[w]), v[w] != u[w])), Z.And(e[w], u[w] < zero), Z.And(zero <= f(d, v), f(d, v) <= f(e, u))),
                          patterns=[Z.MultiPattern(f(d, v), f(e, u))]))
    return A


# ---- collecting the symbols of formulas -------------------------------------
def symbols(fs):
    """names of all uninterpreted symbols and all sorts occurring in the formulas"""
    seen, names, sorts = {}, set(), {}
    stack = list(fs)
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen[i] = t
        if Z.is_quantifier(t):
            stack.append(t.body())
            for k in range(t.num_vars()):
                s = t.var_sort(k); sorts[s.name() if s.kind() != Z.Z3_ARRAY_SORT else str(s)] = s
            continue
        if Z.is_app(t):
            names.add(t.decl().name())
            s = t.sort()
            sorts[str(s)] = s
            stack.extend(t.children())
    return names, sorts


def theory_axioms(fs):
    names, sorts = symbols(fs)
    out = []
    work = list(fs)
    done = set()
    while True:
        new = []
        for n, T in list(_seq.items()):
            if n in done:
                continue
            if T.name in sorts or any(('@' + n) == nm[nm.find('@'):] for nm in names if '@' in nm):
                done.add(n)
                new += T.axioms()
        if not new:
            break
        out += new
        n2, s2 = symbols(new)
        names |= n2
        sorts.update(s2)
    out += lit_axioms(names)
    out += dsum_axioms(names)
    return out


def has_quant(f):
    todo, seen = [f], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): return True
        todo += x.children()
    return False
