"""Expressions."""
import ast, fractions, re, sys
import z3
from . import theory as th
from . import loader
from .loader import FnRef, ClsRef, ExtRef, ModRef, NT, MISSING
from .exec import *
from .exec import (Sym, Tup, Ref, View, Union, Clo, Bound, BM, Bi, FunV, Lazy, Uninit, UNINIT, CList, CPy, CDict, CSet,
                   CObj, State, It, BUILTINS, simp, zb, zi, conc_int, unify, UNK, And, Or, Not, If, Implies, TRUE, FALSE, Unsupported)
from .theory import *
from .theory import STRT, seqT, sort, sconst

INTSEQ = seqT(z3.IntSort())
STRSEQ = seqT(STRT.sort)

# functions of the trusted library model
itoa = z3.Function('itoa', z3.IntSort(), STRT.sort)
atoi = z3.Function('atoi', STRT.sort, z3.IntSort())
import itertools
ROWIDS = itertools.count()
isws = z3.Function('isws', z3.IntSort(), z3.BoolSort())
splitws = z3.Function('splitws', STRT.sort, STRSEQ.sort)
splitsep = z3.Function('splitsep', STRT.sort, STRT.sort, STRSEQ.sort)
strip_ = z3.Function('strip', STRT.sort, STRT.sort)
joinl = z3.Function('joinl', STRSEQ.sort, z3.IntSort(), STRT.sort)      # concatenation of the first n parts
joinsep = z3.Function('joinsep', STRT.sort, STRSEQ.sort, STRT.sort)
collapse = z3.Function('collapse', STRT.sort, STRT.sort)                # every whitespace run -> one blank
strlt = z3.Function('strlt', STRT.sort, STRT.sort, z3.BoolSort())
opaque = z3.Function('opaque', z3.IntSort(), STRT.sort)
replace_ = z3.Function('replace', STRT.sort, STRT.sort, STRT.sort, STRT.sort)
strmul = z3.Function('strmul', STRT.sort, z3.IntSort(), STRT.sort)         # the string repeated n times
ssum_i = z3.Function('ssum_i', INTSEQ.sort, z3.IntSort(), z3.IntSort())
_REALSEQ = seqT(z3.RealSort())
ssum_r = z3.Function('ssum_r', _REALSEQ.sort, z3.IntSort(), z3.RealSort())
_occ = {}


def occf(es):
    """occ(s, x, n): number of occurrences of x among the first n elements"""
    n = th.sname(es)
    if n not in _occ:
        _occ[n] = z3.Function('occ@' + n, seqT(es).sort, es, z3.IntSort(), z3.IntSort())
    return _occ[n]


def library_axioms(names):
    A = []
    s, t, u = z3.Consts('s t u', STRT.sort)
    q = z3.Const('q', STRSEQ.sort)
    i, n, j = z3.Ints('i n j')
    L, AT = STRT.len, STRT.at
    fa = lambda vs, b, *p: A.append(z3.ForAll(vs, b, patterns=list(p)))
    if {'isws', 'splitws', 'collapse', 'strip'} & names:
        # ASCII whitespace and the blanks of Unicode; digits, letters and Hangul are not whitespace
        fa([i], Implies(Or(And(33 <= i, i <= 126), And(0x3131 <= i, i <= 0x3163), And(0xAC00 <= i, i <= 0xD7A3)), Not(isws(i))), isws(i))
        A.append(And(*[isws(z3.IntVal(c)) for c in (9, 10, 11, 12, 13, 32)]))
    if 'splitws' in names:
        P = splitws(s)
        fa([s, i], Implies(And(0 <= i, i < STRSEQ.len(P)), L(STRSEQ.at(P, i)) > 0), STRSEQ.at(P, i))
        fa([s, i, j], Implies(And(0 <= i, i < STRSEQ.len(P), 0 <= j, j < L(STRSEQ.at(P, i))), Not(isws(AT(STRSEQ.at(P, i), j)))), AT(STRSEQ.at(P, i), j))
        nws = z3.Function('splitws_w', STRT.sort, z3.IntSort())
        fa([s], Or(L(s) == 0, And(0 <= nws(s), nws(s) < L(s), isws(AT(s, nws(s)))), P == STRSEQ.unit(s)), P)
        fa([i], Implies(isws(i), splitws(STRT.unit(i)) == STRSEQ.empty), splitws(STRT.unit(i)))
        A.append(splitws(STRT.empty) == STRSEQ.empty)
        fa([s, t], Implies(Or(L(s) == 0, L(t) == 0, isws(AT(s, L(s) - 1)), isws(AT(t, 0))), splitws(STRT.cat(s, t)) == STRSEQ.cat(splitws(s), splitws(t))), splitws(STRT.cat(s, t)))
    if 'joinl' in names:
        fa([q, n], Implies(n <= 0, joinl(q, n) == STRT.empty), joinl(q, n))
        x = z3.Const('x', STRT.sort)
        fa([q, n, j], Implies(And(n == j + 1, 0 <= j, n <= STRSEQ.len(q)), joinl(q, n) == STRT.cat(joinl(q, j), STRSEQ.at(q, j))), z3.MultiPattern(joinl(q, n), STRSEQ.at(q, j)))
        # prefix stability
        fa([q, x, n], Implies(And(0 <= n, n <= STRSEQ.len(q)), joinl(STRSEQ.app(q, x), n) == joinl(q, n)), joinl(STRSEQ.app(q, x), n))
        fa([q, x, n], Implies(n == STRSEQ.len(q) + 1, joinl(STRSEQ.app(q, x), n) == STRT.cat(joinl(q, STRSEQ.len(q)), x)), joinl(STRSEQ.app(q, x), n))
    if 'collapse' in names:
        A.append(collapse(STRT.empty) == STRT.empty)
        fa([s], collapse(collapse(s)) == collapse(s), collapse(collapse(s)))
        # blanks and characters come from the argument
        w = z3.Function('collapse_src', STRT.sort, z3.IntSort(), z3.IntSort())
        fa([s, i], Implies(And(0 <= i, i < L(collapse(s))), Or(AT(collapse(s), i) == 32, And(0 <= w(s, i), w(s, i) < L(s), AT(collapse(s), i) == AT(s, w(s, i)), Not(isws(AT(collapse(s), i)))))), AT(collapse(s), i))
        if 'strip' in names:
            fa([s], collapse(strip_(collapse(s))) == strip_(collapse(s)), strip_(collapse(s)))
    if 'strip' in names:
        fa([s], strip_(strip_(s)) == strip_(s), strip_(strip_(s)))
        b = z3.Function('strip_b', STRT.sort, z3.IntSort())
        e = z3.Function('strip_e', STRT.sort, z3.IntSort())
        fa([s], And(0 <= b(s), b(s) <= e(s), e(s) <= L(s), strip_(s) == STRT.sub(s, b(s), e(s)),
                    Implies(b(s) < e(s), And(Not(isws(AT(s, b(s)))), Not(isws(AT(s, e(s) - 1))))),
                    Implies(b(s) > 0, And(isws(AT(s, 0)), isws(AT(s, b(s) - 1)))), Implies(e(s) < L(s), And(isws(AT(s, L(s) - 1)), isws(AT(s, e(s)))))), strip_(s))
        fa([s, i], Implies(And(0 <= i, i < L(s), Or(i < b(s), i >= e(s))), isws(AT(s, i))), z3.MultiPattern(strip_(s), AT(s, i)))
    if {'itoa', 'atoi'} & names:
        fa([i], And(atoi(itoa(i)) == i, L(itoa(i)) > 0, z3.Function('isnumeral', STRT.sort, z3.BoolSort())(itoa(i))), itoa(i))
        fa([i, j], Implies(And(0 <= j, j < L(itoa(i))), Or(AT(itoa(i), j) == 45, And(48 <= AT(itoa(i), j), AT(itoa(i), j) <= 57))), AT(itoa(i), j))
    if 'strlt' in names:
        fa([s], Not(strlt(s, s)), strlt(s, s))
        fa([s, t], And(Not(And(strlt(s, t), strlt(t, s))), Or(strlt(s, t), strlt(t, s), s == t)), strlt(s, t))
        fa([s, t, u], Implies(And(strlt(s, t), strlt(t, u)), strlt(s, u)), z3.MultiPattern(strlt(s, t), strlt(t, u)))
    for f, S in ((ssum_i, INTSEQ), (ssum_r, _REALSEQ)):
        if f.name() in names:
            q2 = z3.Const('q', S.sort); x2 = z3.Const('x', S.es)
            fa([q2, n], Implies(n <= 0, f(q2, n) == 0), f(q2, n))
            fa([q2, n], Implies(n > 0, f(q2, n) == f(q2, n - 1) + S.at(q2, n - 1)), z3.MultiPattern(f(q2, n), S.at(q2, n - 1)))
    for nm, f in _occ.items():
        if f.name() in names:
            S = [x for x in th._seq.values() if x.name == 'Seq_' + nm][0]
            q2 = z3.Const('q', S.sort); x2, y2 = z3.Consts('x y', S.es)
            fa([q2, x2, n], Implies(n <= 0, f(q2, x2, n) == 0), f(q2, x2, n))
            fa([q2, x2, n], f(q2, x2, n) >= 0, f(q2, x2, n))
            # unfolding is driven by the terms at(q, n-1) present in the problem
            fa([q2, x2, n, j], Implies(And(n == j + 1, j >= 0), f(q2, x2, n) == f(q2, x2, j) + If(S.at(q2, j) == x2, 1, 0)), z3.MultiPattern(f(q2, x2, n), S.at(q2, j)))
            fa([q2, x2, y2, n], Implies(n <= S.len(q2), f(S.app(q2, x2), y2, n) == f(q2, y2, n)), f(S.app(q2, x2), y2, n))
            fa([q2, x2, y2, n], Implies(n == S.len(q2) + 1, f(S.app(q2, x2), y2, n) == f(q2, y2, S.len(q2)) + If(x2 == y2, 1, 0)), f(S.app(q2, x2), y2, n))
            fa([q2, x2], And((f(q2, x2, S.len(q2)) > 0) == S.has(q2, x2)), f(q2, x2, S.len(q2)))
            fa([q2, x2, n], Implies(And(f(q2, x2, n) > 0, n <= S.len(q2)), S.has(q2, x2)), f(q2, x2, n))
    return A


def mkcat(T, a, b):
    if a.eq(T.empty): return b
    if b.eq(T.empty): return a
    ca, cb = th.codes(a) if T is STRT else None, th.codes(b) if T is STRT else None
    if ca is not None and cb is not None:
        return sconst(''.join(map(chr, ca + cb)))
    if z3.is_app(b) and b.decl().eq(T.app): return T.app(mkcat(T, a, b.arg(0)), b.arg(1))
    return T.cat(a, b)


class ExprMixin:
    # -- dispatch ------------------------------------------------------------------
    def ev(self, e, st, fid):
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__, e)
        return m(e, st, fid)

    def ev_Constant(self, e, st, fid):
        if e.value is Ellipsis:
            raise Unsupported('ellipsis', e)
        return e.value

    def specbound(self, n, st, fid):
        """n is bound within the specification (a quantifier), it is not a variable of the program"""
        while fid is not None and self.frames[fid][3] is None:
            if n in st.envs.get(fid, {}): return True
            fid = self.frames[fid][1]
        return False

    def lookup(self, n, st, fid, node=None):
        f = fid
        while f is not None:
            env = st.envs.get(f)
            if env is not None and n in env:
                v = env[n]
                if v is UNINIT:
                    raise Unsupported('unbound %s' % n, node)
                if isinstance(v, Union) and any(x is UNINIT for _, x in v.alts):
                    keep = [(g, x) for g, x in v.alts if x is not UNINIT]
                    if not keep:
                        raise Unsupported('unbound %s' % n, node)
                    self.require(st, Or(*[g for g, _ in keep]), 'UnboundLocalError(%s)' % n, node)
                    v = keep[0][1] if len(keep) == 1 else self.mergev([g for g, _ in keep], [x for _, x in keep], st, node)
                return v
            mod, parent, qual, fn = self.frames[f]
            f = parent
        mod = self.frames[fid][0]
        if mod is not None:
            g = self.ctx.modvars.get('%s:%s' % (mod.name, n))
            if g is not None and g in st.envs.get(self.gfid, {}): return st.envs[self.gfid][g]
            v = loader.lookup(mod, n)
            if v is not MISSING:
                return v
        if n in BUILTINS:
            return Bi(n)
        if self.spec or self.specenv:
            if n in self.ghosts and n in st.envs.get(self.gfid, {}): return st.envs[self.gfid][n]
            if n in self.ctx.specfns: return Bi('spec:' + n)
            if n in self.ctx.specconsts: return self.ctx.specconsts[n]
            if n in self.ctx.specrefs:
                v = loader.resolve(self.ctx.specrefs[n])
                if v is None: raise Unsupported('%s not found in the current source' % self.ctx.specrefs[n], node)
                return v
        raise Unsupported('name %s' % n, node)

    def ev_Name(self, e, st, fid):
        if self.namemap and e.id in self.namemap and not self.specbound(e.id, st, fid):
            return self.lookup(self.namemap[e.id], st, fid, e)
        return self.lookup(e.id, st, fid, e)

    def ev_Tuple(self, e, st, fid):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out += self.static_items(self.ev(x.value, st, fid), st, x)
            else:
                out.append(self.ev(x, st, fid))
        return Tup(out)

    def ev_List(self, e, st, fid):
        t = self.ev_Tuple(e, st, fid)
        return self.alloc(st, CPy(t.items))

    def ev_Set(self, e, st, fid):
        vs = [self.ev(x, st, fid) for x in e.elts]
        t = UNK
        for v in vs: t = unify(t, self.typeof(v, st))
        a = z3.K(sort(t), FALSE)
        for v in vs: a = z3.Store(a, self.pack(v, t, st), TRUE)
        return self.alloc(st, CSet(t, a))

    def ev_Dict(self, e, st, fid):
        if not e.keys:
            return self.alloc(st, CDict(UNK, UNK, None, None))
        if len(e.keys) > 6 and all(isinstance(x, ast.Constant) for x in e.keys + e.values):
            return {k.value: v.value for k, v in zip(e.keys, e.values)}      # a constant table; any mutation is unsupported
        r = self.alloc(st, CDict(UNK, UNK, None, None))
        if all(isinstance(k, ast.Constant) and isinstance(k.value, str) for k in e.keys):
            vs = [self.ev(v, st, fid) for v in e.values]
            try:
                t = UNK
                for v in vs: t = unify(t, self.typeof(v, st))
            except Unsupported:
                # fixed fields of different types
                return self.alloc(st, CObj('record', {k.value: v for k, v in zip(e.keys, vs)}))
            for k, v in zip(e.keys, vs): self.dict_set(r, k.value, v, st, e)
            return r
        for k, v in zip(e.keys, e.values):
            kv = self.ev(k, st, fid)
            self.dict_set(r, kv, self.ev(v, st, fid), st, e)
        return r

    def ev_Lambda(self, e, st, fid):
        return Clo(e, fid, self.frames[fid][0], '<lambda>', [self.ev(d, st, fid) for d in e.args.defaults])

    def ev_JoinedStr(self, e, st, fid):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant): parts.append(v.value)
            else: parts.append(self.tostr(self.ev(v.value, st, fid), st))
        return self.strcat(parts)

    def ev_Starred(self, e, st, fid):
        raise Unsupported('starred', e)

    def ev_NamedExpr(self, e, st, fid):
        v = self.ev(e.value, st, fid)
        st.envs[fid][e.target.id] = v
        return v

    # -- guarded sub-evaluation -------------------------------------------------------
    def under(self, g, fn, st):
        """evaluate fn(state) under guard g; facts are kept conditionally. -> value"""
        base = len(st.pc)
        s2 = st.copy()
        s2.assume(g, True)
        v = fn(s2)
        same = all(s2.heap.get(c) is st.heap[c] for c in st.heap) and all(
            all(s2.envs[f].get(n) is st.envs[f][n] for n in st.envs[f]) and len(s2.envs[f]) == len(st.envs[f]) for f in st.envs)
        if same:
            for k, f in s2.pc[base:]:
                if f is g: continue
                st.pc.append((k, Implies(g, f)))
            for c in s2.heap:
                if c not in st.heap: st.heap[c] = s2.heap[c]
            for f in s2.envs:
                if f not in st.envs: st.envs[f] = s2.envs[f]
            return v
        s1 = st.copy()
        s1.assume(Not(g), True)
        new, _ = self.merge(base, [(s2, None), (s1, None)])
        st.become(new)
        return v

    def cond(self, e, st, fid):
        """truth value of an expression as a formula"""
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            acc = None
            for x in e.values:
                if acc is None:
                    acc = self.cond(x, st, fid)
                else:
                    s = simp(acc)
                    if isand and z3.is_false(s): return FALSE
                    if not isand and z3.is_true(s): return TRUE
                    if z3.is_true(s) or z3.is_false(s):
                        acc = self.cond(x, st, fid)
                    else:
                        g = acc if isand else Not(acc)
                        t = self.under(g, lambda s2: self.cond(x, s2, fid), st)
                        acc = And(acc, t) if isand else Or(acc, t)
            return acc
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return Not(self.cond(e.operand, st, fid))
        v = self.ev(e, st, fid)
        return self.truth(v, st, e)

    def ev_BoolOp(self, e, st, fid):
        isand = isinstance(e.op, ast.And)
        if self.spec:
            return self.mkbool(self.cond(e, st, fid))
        v = self.ev(e.values[0], st, fid)
        for x in e.values[1:]:
            t = simp(self.truth(v, st, e))
            if z3.is_true(t):
                if isand: v = self.ev(x, st, fid); continue
                return v
            if z3.is_false(t):
                if not isand: v = self.ev(x, st, fid); continue
                return v
            g = t if isand else Not(t)
            w = self.under(g, lambda s2: self.ev(x, s2, fid), st)
            if self.isbool(v) and self.isbool(w):
                b = self.truth(w, st)
                v = self.mkbool(And(t, b) if isand else Or(t, b))
            else:
                v = self.mergev([g, Not(g)], [w, v], st, e)
        return v

    def isbool(self, v):
        return isinstance(v, bool) or (isinstance(v, Sym) and v.t.k == 'bool')

    def mkbool(self, f):
        f = zb(f)
        s = simp(f) if not z3.is_quantifier(f) else f
        if z3.is_true(s): return True
        if z3.is_false(s): return False
        return Sym(BOOL, f)

    def ev_UnaryOp(self, e, st, fid):
        if isinstance(e.op, ast.Not):
            return self.mkbool(Not(self.cond(e.operand, st, fid)))
        v = self.ev(e.operand, st, fid)
        if isinstance(e.op, ast.USub):
            if isinstance(v, (int, float, fractions.Fraction)): return -v
            t, x = self.num(v, st, e)
            return Sym(t, -x)
        raise Unsupported('unary', e)

    def ev_IfExp(self, e, st, fid):
        c = self.cond(e.test, st, fid)
        s = simp(c)
        if z3.is_true(s): return self.ev(e.body, st, fid)
        if z3.is_false(s): return self.ev(e.orelse, st, fid)
        if self.spec:
            a = self.ev(e.body, st, fid); b = self.ev(e.orelse, st, fid)
        else:
            a = self.under(c, lambda s2: self.ev(e.body, s2, fid), st)
            b = self.under(Not(c), lambda s2: self.ev(e.orelse, s2, fid), st)
        return self.mergev([c, Not(c)], [a, b], st, e)

    # -- numbers --------------------------------------------------------------------------
    def num(self, v, st, node=None):
        """(type, z3 term)"""
        if isinstance(v, bool): return INT, z3.IntVal(int(v))
        if isinstance(v, int): return INT, z3.IntVal(v)
        if isinstance(v, (float, fractions.Fraction)):
            if isinstance(v, float): self.notes.add('floating-point numbers are treated as exact rationals/reals')
            return REAL, z3.RealVal(str(fractions.Fraction(repr(v)) if isinstance(v, float) else v))
        v = self.optval(v, st, node)
        if isinstance(v, (bool, int, float)): return self.num(v, st, node)
        if isinstance(v, Sym):
            if v.t.k == 'bool': return INT, If(v.x, z3.IntVal(1), z3.IntVal(0))
            if v.t.k in ('int', 'real'):
                if v.t.k == 'real': self.notes.add('floating-point numbers are treated as exact rationals/reals')
                return v.t, v.x
        raise Unsupported('number expected, got %s' % (v.t if isinstance(v, Sym) else type(v).__name__,), node)

    def isnum(self, v):
        return isinstance(v, (bool, int, float, fractions.Fraction)) or (isinstance(v, Sym) and v.t.k in ('int', 'real', 'bool'))

    def strt(self, v, st, node=None):
        v = self.optval(v, st, node)
        if isinstance(v, str): return sconst(v)
        if isinstance(v, Sym) and v.t.k == 'str': return v.x
        raise Unsupported('string expected', node)

    def isstr(self, v):
        return isinstance(v, str) or (isinstance(v, Sym) and v.t.k == 'str')

    def mkint(self, x):
        x = simp(x) if z3.is_app(x) and x.num_args() and all(z3.is_int_value(c) for c in x.children()) else x
        return x.as_long() if z3.is_int_value(x) else Sym(INT, x)

    def mkstr(self, x):
        cs = th.codes(x)
        return ''.join(map(chr, cs)) if cs is not None else Sym(STR, x)

    def strcat(self, parts):
        r = ''
        for p in parts:
            if isinstance(p, str) and isinstance(r, str): r = r + p
            else: r = Sym(STR, mkcat(STRT, sconst(r) if isinstance(r, str) else r.x, sconst(p) if isinstance(p, str) else p.x))
        return r

    def tostr(self, v, st):
        if isinstance(v, str): return v
        if isinstance(v, bool) or v is None: return str(v)
        if isinstance(v, int): return str(v)
        if isinstance(v, Sym) and v.t.k == 'str': return v
        if isinstance(v, Sym) and v.t.k == 'int': return Sym(STR, itoa(v.x))
        return Sym(STR, self.fresh(STRT.sort, 'text'))

    def ev_BinOp(self, e, st, fid):
        a = self.ev(e.left, st, fid)
        b = self.ev(e.right, st, fid)
        return self.binop(type(e.op).__name__, a, b, st, e)

    def binop(self, op, a, b, st, node):
        pyc = (bool, int, float, fractions.Fraction)
        if isinstance(a, Union): a = self.optval(a, st, node)
        if isinstance(b, Union): b = self.optval(b, st, node)
        if isinstance(a, Ext) or isinstance(b, Ext): return (a if isinstance(a, Ext) else b).binop(self, op, a, b, st, node)
        if isinstance(a, Sym) and a.t.k == 'opt': a = self.optval(a, st, node)
        if isinstance(b, Sym) and b.t.k == 'opt': b = self.optval(b, st, node)
        if isinstance(a, str) and op == 'Mod':
            return self.percent(a, b, st, node)
        if isinstance(a, pyc) and isinstance(b, pyc):
            fr = lambda x: fractions.Fraction(repr(x)) if isinstance(x, float) else x
            if op == 'Add': return a + b if not (isinstance(a, float) or isinstance(b, float)) else fr(a) + fr(b)
            if op == 'Sub': return a - b if not (isinstance(a, float) or isinstance(b, float)) else fr(a) - fr(b)
            if op == 'Mult': return a * b if not (isinstance(a, float) or isinstance(b, float)) else fr(a) * fr(b)
            if op == 'FloorDiv' and b: return a // b
            if op == 'Mod' and b: return a % b
            if op == 'Pow': return a ** b
            if op == 'Div' and b: return fractions.Fraction(fr(a)) / fractions.Fraction(fr(b))
        if op == 'Mult' and (isinstance(a, str) and isinstance(b, Sym) and b.t == INT or isinstance(b, str) and isinstance(a, Sym) and a.t == INT):
            l, n = (a, b) if isinstance(a, str) else (b, a)
            return Sym(STR, strmul(sconst(l), n.x))
        if self.isnum(a) and self.isnum(b):
            ta, x = self.num(a, st, node); tb, y = self.num(b, st, node)
            if op in ('Add', 'Sub', 'Mult'):
                if ta.k != tb.k:
                    x = z3.ToReal(x) if ta.k == 'int' else x
                    y = z3.ToReal(y) if tb.k == 'int' else y
                t = REAL if 'real' in (ta.k, tb.k) else INT
                if op == 'Add':
                    if isinstance(a, int) and a == 0 and t.k == tb.k: return b
                    if isinstance(b, int) and b == 0 and t.k == ta.k: return a
                r = x + y if op == 'Add' else x - y if op == 'Sub' else x * y
                return self.mkint(r) if t is INT else Sym(t, r)
            if op == 'Div':
                self.require(st, y != 0, 'ZeroDivisionError', node)
                self.notes.add('floating-point numbers are treated as exact rationals/reals')
                share = getattr(self.ctx, 'quotient', None)
                if share and not self.spec and ta.k == tb.k == 'int':
                    # the specification function defined as a / b, whose definition is unfolded in the lemmas only
                    return Sym(REAL, self.ctx.specfns[share].f(x, y))
                x = z3.ToReal(x) if ta.k == 'int' else x
                y = z3.ToReal(y) if tb.k == 'int' else y
                return Sym(REAL, x / y)
            if op in ('FloorDiv', 'Mod') and ta.k == tb.k == 'int':
                if isinstance(b, int) and b > 0:
                    return self.mkint(x / y if op == 'FloorDiv' else x % y)
                self.require(st, y > 0, 'ZeroDivisionError', node)
                return self.mkint(x / y if op == 'FloorDiv' else x % y)
            if op == 'Pow' and isinstance(b, int) and 0 <= b <= 3:
                r = z3.IntVal(1) if ta.k == 'int' else z3.RealVal(1)
                for _ in range(b): r = r * x
                return Sym(ta, r)
            raise Unsupported('arithmetic %s' % op, node)
        if self.isstr(a) and self.isstr(b) and op == 'Add':
            return self.strcat([a, b])
        if op == 'Mult':
            if isinstance(b, (str,)) or self.isref(b): a, b = b, a
            if isinstance(a, str) and isinstance(b, int): return a * b
            if self.isref(a) and isinstance(self.content(a, st), CPy):
                items = self.content(a, st).items
                if isinstance(b, int): return self.alloc(st, CPy(items * max(b, 0)))
                if len(items) == 1 and self.isnum(b):
                    t = self.typeof(items[0], st)
                    S = seqT(sort(t)); r = self.fresh(S.sort, 'rep'); n = self.num(b, st)[1]
                    i = z3.Int('i!r')
                    st.assume(S.len(r) == If(n > 0, n, z3.IntVal(0)))
                    st.assume(z3.ForAll([i], Implies(And(0 <= i, i < n), S.at(r, i) == self.pack(items[0], t, st)), patterns=[S.at(r, i)]))
                    return self.alloc(st, CList(t, r))
            if isinstance(a, str) and self.isnum(b) and len(a) >= 1:
                return Sym(STR, self.fresh(STRT.sort, 'rep'))
        la, lb = self.aslist(a, st), self.aslist(b, st)
        if op == 'Add' and isinstance(a, (Tup, tuple)) and isinstance(b, (Tup, tuple)):
            return Tup((a.items if isinstance(a, Tup) else a) + (b.items if isinstance(b, Tup) else b))
        if op == 'Add' and la is not None and lb is not None:
            if isinstance(la, CPy) and isinstance(lb, CPy): return self.alloc(st, CPy(la.items + lb.items))
            t = unify(self.elt(la, st), self.elt(lb, st))
            self.shared_elems(t)
            return self.alloc(st, CList(t, mkcat(seqT(sort(t)), self.pack_content(la, LIST(t), st), self.pack_content(lb, LIST(t), st))))
        sa, sb = self.asset(a, st), self.asset(b, st)
        if sa is not None and sb is not None and op in ('Sub', 'BitOr', 'BitAnd', 'BitXor'):
            return self.alloc(st, self.setop(op, sa, sb, st))
        raise Unsupported('operator %s on %s, %s' % (op, self.kind(a), self.kind(b)), node)

    def kind(self, v):
        return repr(v.t) if isinstance(v, Sym) else type(v).__name__

    def percent(self, f, b, st, node):
        args = list(b.items) if isinstance(b, Tup) else list(b) if isinstance(b, tuple) else [b]
        parts, i = [], 0
        for m in re.finditer(r'%%|%[-+ #0]*\d*(?:\.\d+)?[sdfrgi]|[^%]+|%', f):
            tk = m.group()
            if tk == '%%': parts.append('%')
            elif tk.startswith('%') and len(tk) > 1:
                v = args[i]; i += 1
                if tk == '%s': parts.append(self.tostr(v, st))
                elif tk == '%d' and isinstance(v, Sym) and v.t.k == 'int': parts.append(Sym(STR, itoa(v.x)))
                elif not isinstance(v, Sym) and isinstance(v, (int, str)): parts.append(tk % v)
                else: parts.append(Sym(STR, self.fresh(STRT.sort, 'text')))
            else: parts.append(tk)
        return self.strcat(parts)

    # -- containers -------------------------------------------------------------------------
    def aslist(self, v, st):
        if isinstance(v, list): return CPy(v)
        if self.isref(v):
            c = self.content(v, st)
            if isinstance(c, (CList, CPy)): return c
        return None

    def asset(self, v, st):
        if isinstance(v, (set, frozenset)):
            t = UNK
            for x in v: t = unify(t, self.typeof(x, st))
            if t.k == 'unk': return CSet(UNK, None)
            return CSet(t, self.pack(v, SET(t), st))
        if self.isref(v):
            c = self.content(v, st)
            if isinstance(c, CSet): return c
        return None

    def elt(self, c, st):
        if isinstance(c, CList): return c.t
        t = UNK
        for x in c.items: t = unify(t, self.typeof(x, st))
        return t

    def tolist(self, c, st, t=None):
        if isinstance(c, CList) and (t is None or c.t == t): return c
        t = t or self.elt(c, st)
        if t.k == 'unk': return CList(UNK, None)
        return CList(t, self.pack_content(c, LIST(t), st))

    def setop(self, op, a, b, st):
        t = unify(a.t, b.t)
        if t.k == 'unk': return a
        x = z3.K(sort(t), FALSE) if a.t.k == 'unk' else self.pack_content(a, SET(t), st)
        y = z3.K(sort(t), FALSE) if b.t.k == 'unk' else self.pack_content(b, SET(t), st)
        r = self.fresh(z3.ArraySort(sort(t), z3.BoolSort()), 'set')
        k = self.boundv(sort(t), 'k')
        X, Y = z3.Select(x, k), z3.Select(y, k)
        f = {'Sub': And(X, Not(Y)), 'BitOr': Or(X, Y), 'BitAnd': And(X, Y), 'BitXor': X != Y}[op]
        ps = [z3.Select(r, k)]
        for a_ in (x, y):
            if z3.is_const(a_): ps.append(z3.Select(a_, k))
        st.assume(z3.ForAll([k], z3.Select(r, k) == f, patterns=ps))
        return CSet(t, r)

    def static_items(self, v, st, node=None):
        """items of a container of statically known length"""
        if isinstance(v, Tup): return list(v.items)
        if isinstance(v, (tuple, list)): return list(v)
        if isinstance(v, str): return list(v)
        if self.isref(v):
            c = self.content(v, st)
            if isinstance(c, CPy): return list(c.items)
        if isinstance(v, Lazy):
            n = conc_int(v.it.n)
            if n is not None: return [v.it.get(i) for i in range(n)]
        raise Unsupported('length not static', node)

    # -- comparison ---------------------------------------------------------------------------
    def ev_Compare(self, e, st, fid):
        l = self.ev(e.left, st, fid)
        acc = None
        for op, r in zip(e.ops, e.comparators):
            rv = self.ev(r, st, fid)
            if (isinstance(l, Ext) or isinstance(rv, Ext)) and len(e.ops) == 1 and not isinstance(op, (ast.Is, ast.IsNot)): return (l if isinstance(l, Ext) else rv).compare(self, type(op).__name__, l, rv, st, e)
            f = self.compare(type(op).__name__, l, rv, st, e)
            acc = f if acc is None else And(acc, f)
            l = rv
        return self.mkbool(acc)

    def compare(self, op, a, b, st, node):
        if op in ('Eq', 'Is', 'NotEq', 'IsNot'):
            if isinstance(a, Bi) and isinstance(b, Bi):
                f = zb(a.name == b.name)
            elif isinstance(a, ClsRef) or isinstance(b, ClsRef):
                f = zb(isinstance(a, ClsRef) and isinstance(b, ClsRef) and a.node is b.node)
            elif isinstance(a, Bi) or isinstance(b, Bi):
                f = FALSE
            elif op in ('Is', 'IsNot') and isinstance(a, Ref) and isinstance(b, Ref) and isinstance(self.content(a, st), CObj) and isinstance(self.content(b, st), CObj):
                f = zb(a.c == b.c)
            else:
                f = self.eq(a, b, st, node)
            return Not(f) if op in ('NotEq', 'IsNot') else f
        if op == 'In': return self.contains(b, a, st, node)
        if op == 'NotIn': return Not(self.contains(b, a, st, node))
        if op == 'Lt': return self.lt(a, b, st, node)
        if op == 'Gt': return self.lt(b, a, st, node)
        if op == 'LtE': return self.le(a, b, st, node)
        if op == 'GtE': return self.le(b, a, st, node)
        raise Unsupported('comparison ' + op, node)

    def lt(self, a, b, st, node=None):
        if isinstance(a, (int, float, fractions.Fraction)) and isinstance(b, (int, float, fractions.Fraction)): return zb(a < b)
        if isinstance(a, tuple): a = Tup(a)
        if isinstance(b, tuple): b = Tup(b)
        a, b = self.optval(a, st, node), self.optval(b, st, node)
        if isinstance(a, Tup) and isinstance(b, Tup):
            r = zb(len(a.items) < len(b.items))
            for x, y in reversed(list(zip(a.items, b.items))):
                r = Or(self.lt(x, y, st, node), And(self.eq(x, y, st, node), r))
            return r
        if self.isstr(a) and self.isstr(b):
            if isinstance(a, str) and isinstance(b, str): return zb(a < b)
            return strlt(self.strt(a, st), self.strt(b, st))
        ta, x = self.num(a, st, node); tb, y = self.num(b, st, node)
        if ta.k != tb.k:
            x = z3.ToReal(x) if ta.k == 'int' else x
            y = z3.ToReal(y) if tb.k == 'int' else y
        return x < y

    def le(self, a, b, st, node=None):
        if self.isnum(a) and self.isnum(b) or isinstance(a, Sym) and a.t.k == 'opt':
            if isinstance(a, (int, float)) and isinstance(b, (int, float)): return zb(a <= b)
            ta, x = self.num(a, st, node); tb, y = self.num(b, st, node)
            if ta.k != tb.k:
                x = z3.ToReal(x) if ta.k == 'int' else x
                y = z3.ToReal(y) if tb.k == 'int' else y
            return x <= y
        return Not(self.lt(b, a, st, node))

    def contains(self, c, x, st, node=None):
        c = self.optval(c, st, node)
        if isinstance(c, (list, tuple, set, frozenset, dict)):
            return Or(*[self.eq(x, y, st) for y in c]) if c else FALSE
        if isinstance(c, Tup):
            return Or(*[self.eq(x, y, st) for y in c.items]) if c.items else FALSE
        if isinstance(c, str):
            if isinstance(x, str): return zb(x in c)
            if isinstance(x, Sym) and x.t.k == 'str' and th.is_unit(x.x):
                return Or(*[x.x.arg(0) == ord(ch) for ch in c]) if c else FALSE
            if isinstance(x, Sym) and x.t.k == 'str':
                subs = {c[i:j] for i in range(len(c) + 1) for j in range(i, len(c) + 1)}
                if len(subs) < 60: return Or(*[self.streq_lit(x.x, s) for s in sorted(subs)])
                L = STRT.len(x.x)
                return Or(L == 0, And(L == 1, Or(*[STRT.at(x.x, 0) == ord(ch) for ch in sorted(set(c))])), And(L > 1, z3.Function('substring', STRT.sort, STRT.sort, z3.BoolSort())(sconst(c), x.x)))
        if isinstance(c, Sym) and c.t.k == 'str':
            if isinstance(x, str) and len(x) == 1: return STRT.has(c.x, z3.IntVal(ord(x)))
            if isinstance(x, Sym) and th.is_unit(x.x): return STRT.has(c.x, x.x.arg(0))
            raise Unsupported('substring test', node)
        if self.isref(c):
            k = self.content(c, st)
            if isinstance(k, CPy): return Or(*[self.eq(x, y, st) for y in k.items]) if k.items else FALSE
            if isinstance(k, CList):
                if k.t.k == 'unk': return FALSE
                return seqT(sort(k.t)).has(k.x, self.pack(x, k.t, st))
            if isinstance(k, (CDict, CSet)):
                kt, dom = (k.kt, k.dom) if isinstance(k, CDict) else (k.t, k.arr)
                if kt.k == 'unk': return FALSE
                if x is None and kt.k != 'opt' and kt.k != 'none': return FALSE
                if isinstance(x, Tup) and kt.k in ('str', 'char', 'int', 'bool'): return FALSE
                if isinstance(x, Sym) and x.t.k == 'opt' and kt.k != 'opt':
                    s = sort(x.t)
                    return And(s.recognizer(1)(x.x), z3.Select(dom, self.pack(self.unpack(s.accessor(1, 0)(x.x), x.t.a[0], st), kt, st)))
                return z3.Select(dom, self.pack(x, kt, st))
            if isinstance(k, CObj) and isinstance(k.cls, ClsRef):
                m = k.cls.find('__contains__')
                if m: return self.truth(self.call(Bound(c, m), [x], {}, st, node), st)
        if isinstance(c, Lazy):
            if c.it.kind in ('keys',) and c.it.seq is not None:
                return self.contains(c.it.seq, x, st, node)
            i = self.boundv(z3.IntSort(), 'i')
            return z3.Exists([i], And(0 <= i, i < c.it.n, self.eq(c.it.get(i), x, st)))
        if isinstance(c, Union): return Or(*[And(g, self.contains(y, x, st, node)) for g, y in c.alts])
        raise Unsupported('membership in %s' % self.kind(c), node)

    # -- indexing ---------------------------------------------------------------------------------
    def length(self, v, st, node=None):
        v = self.optval(v, st, node)
        if isinstance(v, Ext): return v.length(self, st, node)
        if isinstance(v, (str, list, tuple, dict, set, frozenset)): return len(v)
        if isinstance(v, Tup): return len(v.items)
        if isinstance(v, Sym) and v.t.k == 'str':
            if th.is_unit(v.x): return 1
            return self.mkint(STRT.len(v.x))
        if isinstance(v, Lazy): return self.mkint(zi(v.it.n))
        if self.isref(v):
            c = self.content(v, st)
            if isinstance(c, CPy): return len(c.items)
            if isinstance(c, CList):
                return 0 if c.t.k == 'unk' else self.mkint(seqT(sort(c.t)).len(c.x))
            if isinstance(c, (CDict, CSet)):
                if (c.kt if isinstance(c, CDict) else c.t).k == 'unk': return 0
                ks, kidx, S = self.enum(c, st)
                return self.mkint(S.len(ks))
            if isinstance(c, CObj) and isinstance(c.cls, ClsRef):
                m = c.cls.find('__len__')
                if m: return self.call(Bound(v, m), [], {}, st, node)
        raise Unsupported('len of %s' % self.kind(v), node)

    def ev_Subscript(self, e, st, fid):
        v = self.ev(e.value, st, fid)
        if isinstance(e.slice, ast.Slice):
            return self.slice(v, e.slice, st, fid, e)
        k = self.ev(e.slice, st, fid)
        return self.index(v, k, st, e)

    def neg(self, i, n):
        """index normalisation for constant negative indices"""
        return n + i if isinstance(i, int) and i < 0 else i

    def seq_elem(self, T, x, k, et, st, base=None):
        if et.k in ('list', 'set', 'dict') and base is not None:
            return View(base, k, et)
        return self.unpack(T.at(x, k), et, st)

    def index(self, v, k, st, node):
        v = self.optval(v, st, node)
        if isinstance(v, Ext): return v.index(self, k, st, node)
        if isinstance(v, (str, list, tuple)) and isinstance(k, int):
            if -len(v) <= k < len(v): return v[k]
            self.require(st, FALSE, 'IndexError', node)
            raise Unsupported('index out of range', node)
        if isinstance(v, Tup):
            if v.nt is th.OPEN and isinstance(k, int) and (k < 0 or k >= len(v.items)):
                # an entry that is not tracked: anything (a function of the row, so that it may be used under a binder)
                t = self.typeof(v, st)
                f = z3.Function('row!%d' % next(ROWIDS), sort(t), z3.RealSort())
                if t.cls.nonneg:
                    b = z3.Const('row', sort(t))
                    st.assume(z3.ForAll([b], f(b) >= 0, patterns=[f(b)]))
                return Sym(REAL, f(self.pack(v, t, st)))
            if isinstance(k, int):
                if -len(v.items) <= k < len(v.items): return v.items[k]
                self.require(st, FALSE, 'IndexError', node)
                return Sym(BOOL, self.fresh(z3.BoolSort(), 'bad'))
            v = tuple(v.items)
        if isinstance(v, dict):
            if not isinstance(k, Sym):
                try: return v[k]
                except KeyError: pass
            self.require(st, self.contains(v, k, st), 'KeyError', node)
            return self.select_const([(self.eq(k, kk, st), vv) for kk, vv in v.items()], st)
        if isinstance(v, (list, tuple)):      # constant table, symbolic index
            t, x = self.num(k, st, node)
            self.require(st, And(0 <= x, x < len(v)), 'IndexError', node)
            return self.select_const([(x == i, y) for i, y in enumerate(v)], st)
        if isinstance(v, str): v = Sym(STR, sconst(v))
        if isinstance(v, Sym) and v.t.k == 'str':
            n = STRT.len(v.x)
            t, x = self.num(k, st, node)
            if isinstance(k, int) and k < 0:
                self.require(st, n >= -k, 'IndexError', node)
                x = n + k
            else:
                self.require(st, And(0 <= x, x < n), 'IndexError', node)
            if th.is_unit(v.x): return v
            return Sym(STR, STRT.unit(STRT.at(v.x, simp(x) if not z3.is_const(x) else x)))
        if self.isref(v):
            c = self.content(v, st)
            if isinstance(c, CPy):
                if isinstance(k, int):
                    if -len(c.items) <= k < len(c.items): return c.items[k]
                    self.require(st, FALSE, 'IndexError', node)
                    raise Unsupported('index out of range', node)
                if len(c.items) > 3 and all(isinstance(x, (str, int, float)) for x in c.items):
                    return self.index(tuple(c.items), k, st, node)
                c = self.tolist(c, st)
            if isinstance(c, CList):
                if c.t.k == 'unk':
                    self.require(st, FALSE, 'IndexError', node)
                    raise Unsupported('index into empty list', node)
                T = seqT(sort(c.t))
                t, x = self.num(k, st, node)
                n = T.len(c.x)
                if isinstance(k, int) and k < 0:
                    self.require(st, n >= -k, 'IndexError', node)
                    x = n + k
                else:
                    self.require(st, And(0 <= x, x < n), 'IndexError', node)
                return self.seq_elem(T, c.x, x, c.t, st, v)
            if isinstance(c, CDict):
                return self.dict_get(v, c, k, st, node)
            if isinstance(c, CObj):
                if c.cls == 'matrix': return self.matrix_get(v, c, k, st, node)
                if c.cls == 'record' and isinstance(k, str):
                    if k in c.fields: return c.fields[k]
                    self.require(st, FALSE, 'KeyError', node)
                    raise Unsupported('missing field', node)
                if isinstance(c.cls, ClsRef):
                    m = c.cls.find('__getitem__')
                    if m: return self.call(Bound(v, m), [k], {}, st, node)
        if isinstance(v, Lazy):
            t, x = self.num(k, st, node)
            if isinstance(k, int) and k < 0: x = zi(v.it.n) + k
            self.require(st, And(0 <= x, x < v.it.n), 'IndexError', node)
            return v.it.get(x)
        x = Unsupported('index of %s' % self.kind(v), node)
        x.illtyped = v is None
        raise x

    def select_const(self, alts, st):
        """value among constant alternatives"""
        if not alts: raise Unsupported('empty table')
        gs, vs = [g for g, _ in alts], [v for _, v in alts]
        if all(isinstance(v, str) and len(v) == 1 for v in vs):
            r = z3.IntVal(ord(vs[-1]))
            for g, v in reversed(alts[:-1]): r = If(g, z3.IntVal(ord(v)), r)
            c = self.fresh(z3.IntSort(), 'tab')
            st.assume(c == r)
            return Sym(STR, STRT.unit(c))
        return self.mergev(gs, vs, st)

    def dict_get(self, ref, c, k, st, node):
        if c.kt.k == 'unk':
            if c.default is not None:
                return self.dict_missing(ref, k, st, node)
            self.require(st, FALSE, 'KeyError', node)
            raise Unsupported('lookup in empty dict', node)
        kk = self.pack(self.optval(k, st, node) if c.kt.k != 'opt' else k, c.kt, st)
        if c.default is not None and not self.spec:
            self.dict_missing(ref, k, st, node)
            c = self.content(ref, st)
        else:
            self.require(st, z3.Select(c.dom, kk), 'KeyError', node)
        if c.vt.k in ('list', 'set', 'dict'):
            return View(ref, kk, c.vt)
        return self.unpack(z3.Select(c.val, kk), c.vt, st)

    def dict_missing(self, ref, k, st, node):
        """defaultdict: a read inserts the default"""
        c = self.content(ref, st)
        d = c.default
        if c.kt.k == 'unk':
            kt = self.typeof(k, st)
            dv = self.call(d, [], {}, st, node)
            if self.isref(dv):
                dc = self.content(dv, st)
                if (isinstance(dc, CDict) and dc.kt.k == 'unk') or (isinstance(dc, CPy) and not dc.items):
                    hint = self.hint_for(ref, st)
                    if hint is None:
                        raise Unsupported('type of nested default unknown', node)
                    self.retype_dict(ref, hint[0], hint[1], st)
                    return self.dict_get_default(ref, k, st, node)
            self.retype_dict(ref, kt, self.typeof(dv, st), st)
        return self.dict_get_default(ref, k, st, node)

    def hint_for(self, ref, st):
        return self.ctx.hints.get(self.cur[-1]) or self.ctx.hints.get('*')

    def retype_dict(self, ref, kt, vt, st):
        c = self.content(ref, st)
        if c.kt.k != 'unk': return c
        c = CDict(kt, vt, z3.K(sort(kt), FALSE), z3.K(sort(kt), self.default_term(sort(vt))), c.default)
        if isinstance(ref, Ref) and not isinstance(st.heap[ref.c], View): st.heap[ref.c] = c        # it stays empty
        else: self.setcontent(ref, c, st)
        return c

    def dict_get_default(self, ref, k, st, node):
        c = self.content(ref, st)
        kk = self.pack(k, c.kt, st)
        dv = self.call(c.default, [], {}, st, node)
        dx = self.pack(dv, c.vt, st)
        val = If(z3.Select(c.dom, kk), z3.Select(c.val, kk), dx)
        self.setcontent(ref, CDict(c.kt, c.vt, z3.Store(c.dom, kk, TRUE), z3.Store(c.val, kk, val), c.default), st)
        if c.vt.k in ('list', 'set', 'dict'):
            return View(ref, kk, c.vt)
        return self.unpack(val, c.vt, st)

    def dict_set(self, ref, k, v, st, node):
        c = self.content(ref, st)
        if c.kt.k == 'unk':
            kt, vt = self.typeof(k, st), self.typeof(v, st)
            h = self.ctx.hints.get((self.cur[-1], 'dict')) if hasattr(self.ctx, 'hints') else None
            c = self.retype_dict(ref, kt, vt if vt.k != 'unk' else h, st)
        else:
            vt = unify(c.vt, self.typeof(v, st)) if not (self.typeof(v, st).k in ('list', 'dict', 'set')) else c.vt
            kt = unify(c.kt, self.typeof(k, st))
            if (kt, vt) != (c.kt, c.vt):
                if kt != c.kt: raise Unsupported('key type change', node)
                x = self.pack_content(c, DICT(kt, vt), st)
                c = CDict(kt, vt, x.arg(0), x.arg(1), c.default)
        kk = self.pack(k, c.kt, st)
        if c.default is not None and c.vt.k == 'dict' and self.isref(v):
            d = self.content(v, st)
            if (d.default is None if isinstance(d, CDict) else True) != (self.nested_default(c.default, st) is None): raise Unsupported('rows of different kinds in a defaultdict', node)
        vx = self.pack(v, c.vt, st)
        if c.vt.k in ('list', 'set', 'dict'):
            if not (isinstance(v, View) and v.key.eq(kk) and self.samebase(v.base, ref, st)):
                self.detach(ref, kk, c, st)
                if not isinstance(v, Ref) or isinstance(st.heap.get(v.c), View): self.stored(v, st)
            self.staleviews(ref, kk, st, v)
        else: self.stored(v, st)
        self.setcontent(ref, CDict(c.kt, c.vt, z3.Store(c.dom, kk, TRUE), z3.Store(c.val, kk, vx), c.default), st)
        if isinstance(v, Ref) and c.vt.k in ('list', 'set', 'dict') and not isinstance(st.heap.get(v.c), View):
            # the stored container and the variable are one object
            st.heap[v.c] = View(ref, kk, c.vt)

    # -- slices ---------------------------------------------------------------------------------------
    def bound(self, e, n, st, fid, dflt, node):
        """slice bound as (python int | z3 term), non-negative"""
        if e is None: return dflt
        if isinstance(e, ast.Constant) and e.value is None: return dflt
        v = self.ev(e, st, fid)
        if v is None: return dflt
        v = self.optval(v, st, node)
        if isinstance(v, int):
            if v >= 0: return v
            if isinstance(n, int): return max(0, n + v)
            return n + v              # negative when too short: the slice is empty (as end) or starts at 0 (as begin)
        t, x = self.num(v, st, node)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            y = zi(n) + x
            return If(x >= 0, x, If(y >= 0, y, z3.IntVal(0)))
        if not self.spec:
            self.require(st, x >= 0, 'negative slice bound', node)
        return x

    def slice(self, v, sl, st, fid, node):
        v = self.optval(v, st, node)
        if sl.step is not None:
            s = self.ev(sl.step, st, fid)
            if s == -1 and sl.lower is None and sl.upper is None:
                return self.bi_list([self.bi_reversed([v], {}, st, node)], {}, st, node)
            raise Unsupported('slice step', node)
        n = self.length(v, st, node)
        nz = n if isinstance(n, int) else n.x
        lo = self.bound(sl.lower, nz, st, fid, 0, node)
        hi = self.bound(sl.upper, nz, st, fid, None, node)
        # a negative constant lower bound clamps at 0
        if sl.lower is not None and not isinstance(nz, int) and not isinstance(lo, int) and self._constneg(sl.lower):
            lo = If(lo >= 0, lo, z3.IntVal(0))
        if isinstance(v, (str, list, tuple)) and isinstance(lo, int) and (hi is None or isinstance(hi, int)):
            r = v[lo:hi]
            return self.alloc(st, CPy(r)) if isinstance(r, list) else r
        if isinstance(v, Tup) and isinstance(lo, int) and (hi is None or isinstance(hi, int)):
            return Tup(v.items[lo:hi])
        if hi is None: hi = nz
        if isinstance(v, str): v = Sym(STR, sconst(v))
        if isinstance(v, Sym) and v.t.k == 'str':
            return self.mkstr(self.mksub(STRT, v.x, lo, hi))
        if self.isref(v):
            c = self.content(v, st)
            if isinstance(c, CPy):
                if isinstance(lo, int) and isinstance(hi, int): return self.alloc(st, CPy(c.items[lo:hi]))
                c = self.tolist(c, st)
            if isinstance(c, CList):
                if c.t.k == 'unk': return self.alloc(st, CPy(()))
                return self.alloc(st, CList(c.t, self.mksub(seqT(sort(c.t)), c.x, lo, hi)))
        raise Unsupported('slice of %s' % self.kind(v), node)

    def _constneg(self, e):
        return isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) and isinstance(e.operand, ast.Constant)

    def mksub(self, T, x, lo, hi):
        if T is STRT:
            cs = th.codes(x)
            a, b = conc_int(zi(lo)), conc_int(zi(hi))
            if cs is not None and a is not None and b is not None and b >= 0:
                return sconst(''.join(map(chr, cs[a:b])))
        if isinstance(lo, int) and isinstance(hi, int) and lo >= hi: return T.empty
        if th.is_unit(x):
            a, b = conc_int(zi(lo)), conc_int(zi(hi))
            if a is not None and b is not None: return x if a <= 0 < b else T.empty
        return T.sub(x, zi(lo), zi(hi))

    # -- attributes ---------------------------------------------------------------------------------------
    def ev_Attribute(self, e, st, fid):
        v = self.ev(e.value, st, fid)
        return self.attr(v, e.attr, st, e)

    def attr(self, v, name, st, node):
        if isinstance(v, Union) or (isinstance(v, Sym) and v.t.k == 'opt'): v = self.optval(v, st, node, 'AttributeError')
        if self.isref(v):
            c = self.content(v, st)
            if isinstance(c, CObj):
                if name in c.fields:
                    x = c.fields[name]
                    if x is UNINIT: raise Unsupported('unset field ' + name, node)
                    if isinstance(x, Union) and any(y is UNINIT for _, y in x.alts):
                        keep = [(g, y) for g, y in x.alts if y is not UNINIT]
                        self.require(st, Or(*[g for g, _ in keep]), 'AttributeError', node)
                        x = keep[0][1] if len(keep) == 1 else self.mergev([g for g, _ in keep], [y for _, y in keep], st)
                    return x
                if isinstance(c.cls, ClsRef):
                    m = c.cls.find(name)
                    if m is not None:
                        if m.kind == 'property': return self.call(Bound(v, m), [], {}, st, node)
                        if m.kind == 'static': return m
                        return Bound(v, m)
                    if name in c.cls.consts:
                        return loader.const_eval(c.cls.mod, c.cls.consts[name])
                if isinstance(c.cls, str): return BM(v, name)
                raise Unsupported('attribute %s' % name, node)
            return BM(v, name)
        if isinstance(v, Ext): return v.attr(self, name, st, node)
        if isinstance(v, Tup) and v.nt and name in (v.nt.fields or ()):
            return v.items[v.nt.fields.index(name)]
        if isinstance(v, ModRef):
            x = loader.lookup(v.mod, name)
            if x is MISSING: raise Unsupported('module attribute ' + name, node)
            return x
        if isinstance(v, ExtRef):
            if v.name == 'sys' and name == 'version_info': return sys.version_info
            if v.name == 'sys' and name == 'version': return sys.version
            return ExtRef(v.name + '.' + name)
        if isinstance(v, type(sys.version_info)) and name == 'major': return v.major
        if isinstance(v, ClsRef):
            m = v.find(name)
            if m: return m
            if name in v.consts: return loader.const_eval(v.mod, v.consts[name])
        if isinstance(v, (str, list, tuple, dict, set, frozenset, Sym, Tup, Lazy, re.Pattern)):
            return BM(v, name)
        x = Unsupported('attribute %s of %s' % (name, self.kind(v)), node)
        x.illtyped = v is None
        raise x
