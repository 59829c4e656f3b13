"""Symbolic execution of the real Python source, generating proof obligations.

Forward symbolic execution with state merging at joins; loops are cut by their
invariants, comprehensions / sorted / min / max are axiomatised, callees under
contract are represented by their contract only, other callees are inlined."""
import ast, fractions, re
import z3
from . import theory as th
from .theory import (Ty, INT, BOOL, REAL, STR, CHAR, NONE, TUP, LIST, SET, DICT, OPT, FUN, ABS,
                     STRT, seqT, sort, sconst)
from . import loader
from .loader import FnRef, ClsRef, ExtRef, ModRef, NT, MISSING

UNK = Ty('unk')
And, Or, Not, If, Implies = z3.And, z3.Or, z3.Not, z3.If, z3.Implies
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


class Unsupported(Exception):
    def __init__(self, msg, node=None):
        self.node = node
        super().__init__(msg + (' (line %s)' % node.lineno if node is not None and hasattr(node, 'lineno') else ''))


# ---- values ------------------------------------------------------------------
class Sym:
    __slots__ = ('t', 'x')
    def __init__(self, t, x):
        self.t, self.x = t, x
    def __repr__(self):
        return 'Sym(%r,%s)' % (self.t, self.x)


class Tup:
    __slots__ = ('items', 'nt')
    def __init__(self, items, nt=None):
        self.items, self.nt = tuple(items), nt


class Ref:
    __slots__ = ('c',)
    def __init__(self, c):
        self.c = c


class View:
    """a mutable value stored inside another container (place)"""
    __slots__ = ('base', 'key', 't', 'stale')
    def __init__(self, base, key, t, stale=False):
        self.base, self.key, self.t, self.stale = base, key, t, stale


class Union:
    __slots__ = ('alts',)
    def __init__(self, alts):
        self.alts = alts


class Clo:
    __slots__ = ('node', 'fid', 'mod', 'name', 'defaults')
    def __init__(self, node, fid, mod, name, defaults):
        self.node, self.fid, self.mod, self.name, self.defaults = node, fid, mod, name, defaults


class Bound:
    __slots__ = ('obj', 'fn')
    def __init__(self, obj, fn):
        self.obj, self.fn = obj, fn


class BM:
    """method of a built-in value"""
    __slots__ = ('recv', 'name')
    def __init__(self, recv, name):
        self.recv, self.name = recv, name


class Bi:
    __slots__ = ('name',)
    def __init__(self, name):
        self.name = name
    def __eq__(self, o): return isinstance(o, Bi) and o.name == self.name
    def __hash__(self): return hash(self.name)


class FunV:
    """caller-supplied pure function (uninterpreted)"""
    __slots__ = ('t', 'f')
    def __init__(self, t, f):
        self.t, self.f = t, f


class Ext:
    """a value of a modelled library (an array): immutable, its operations are those of the model"""
    def attr(self, ex, name, st, node): raise Unsupported('attribute ' + name, node)
    def method(self, ex, name, a, kw, st, node): raise Unsupported('method ' + name, node)
    def binop(self, ex, op, a, b, st, node): raise Unsupported('operator ' + op, node)
    def compare(self, ex, op, a, b, st, node): raise Unsupported('comparison ' + op, node)
    def index(self, ex, k, st, node): raise Unsupported('item', node)
    def setitem(self, ex, k, v, st, node): raise Unsupported('item assignment', node)
    def iter(self, ex, st, node): raise Unsupported('iteration', node)
    def length(self, ex, st, node): raise Unsupported('length', node)
    def pack(self, ex, t, st): raise Unsupported('array as %r' % t)


class Lazy:
    """an iterator: zip / enumerate / range / map / dict views / reversed"""
    __slots__ = ('it',)
    def __init__(self, it):
        self.it = it


class Uninit:
    pass


UNINIT = Uninit()


# ---- heap contents (immutable) -------------------------------------------------
class CList:
    __slots__ = ('t', 'x')
    def __init__(self, t, x):
        self.t, self.x = t, x


class CPy:
    """list of statically known length"""
    __slots__ = ('items',)
    def __init__(self, items):
        self.items = tuple(items)


class CDict:
    __slots__ = ('kt', 'vt', 'dom', 'val', 'default', 'enum', 'size')
    def __init__(self, kt, vt, dom, val, default=None, size=None):
        self.kt, self.vt, self.dom, self.val, self.default, self.enum, self.size = kt, vt, dom, val, default, None, size


class CSet:
    __slots__ = ('t', 'arr', 'enum', 'size')
    def __init__(self, t, arr, size=None):
        self.t, self.arr, self.enum, self.size = t, arr, None, size


class CObj:
    __slots__ = ('cls', 'fields')
    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields


class State:
    __slots__ = ('pc', 'envs', 'heap')
    def __init__(self, pc=None, envs=None, heap=None):
        self.pc, self.envs, self.heap = pc if pc is not None else [], envs if envs is not None else {}, heap if heap is not None else {}

    def copy(self):
        return State(list(self.pc), {k: dict(v) for k, v in self.envs.items()}, dict(self.heap))

    def become(self, o):
        self.pc, self.envs, self.heap = o.pc, o.envs, o.heap

    def assume(self, f, guard=False):
        if z3.is_true(f):
            return
        self.pc.append(('g' if guard else 'f', f))

    def facts(self):
        return [f for _, f in self.pc]


class It:
    """finite iteration space: n elements, get(i)"""
    def __init__(self, n, get, seq=None, kind='seq', lo=None, enum=None, trig=None):
        self.n, self.get, self.seq, self.kind, self.lo, self.enum, self.trig = n, get, seq, kind, lo, enum, trig


class Oblig:
    __slots__ = ('label', 'hyps', 'goal', 'func', 'line', 'trivial')
    def __init__(self, label, hyps, goal, func, line):
        self.label, self.hyps, self.goal, self.func, self.line, self.trivial = label, hyps, goal, func, line, False


BUILTINS = {'len', 'range', 'enumerate', 'zip', 'sorted', 'reversed', 'min', 'max', 'sum', 'any', 'all', 'list', 'tuple',
            'set', 'dict', 'str', 'int', 'float', 'map', 'filter', 'isinstance', 'type', 'print', 'open', 'chr', 'ord',
            'abs', 'bool', 'hasattr', 'frozenset', 'next', 'iter', 'format',
            'ValueError', 'KeyError', 'TypeError', 'Exception', 'IndexError', 'StopIteration', 'AttributeError', 'AssertionError', 'NotImplementedError', 'NotImplemented'}


def simp(t):
    return z3.simplify(t)


def zb(b):
    return z3.BoolVal(b) if isinstance(b, bool) else b


def zi(i):
    return z3.IntVal(i) if isinstance(i, int) else i


def conc_int(t):
    if isinstance(t, int):
        return t
    t = z3.simplify(t)
    return t.as_long() if z3.is_int_value(t) else None


def unify(a, b):
    if a == b: return a
    if a.k == 'unk': return b
    if b.k == 'unk': return a
    if {a.k, b.k} == {'char', 'str'}: return STR
    num = {'bool': 0, 'int': 1, 'real': 2}
    if a.k in num and b.k in num:
        return a if num[a.k] >= num[b.k] else b
    if a.k == 'none': return b if b.k == 'opt' else OPT(b)
    if b.k == 'none': return a if a.k == 'opt' else OPT(a)
    if a.k == 'opt' or b.k == 'opt':
        return OPT(unify(a.a[0] if a.k == 'opt' else a, b.a[0] if b.k == 'opt' else b))
    if a.k == b.k and len(a.a) == len(b.a) and a.k in ('tup', 'list', 'set', 'dict'):
        return Ty(a.k, [unify(x, y) for x, y in zip(a.a, b.a)], a.names or b.names, a.cls or b.cls)
    # tuples of different lengths with elements of one type are sequences
    if a.k == 'tup' and b.k in ('tup', 'list') or a.k == 'list' and b.k == 'tup':
        t = UNK
        for x in a.a + b.a: t = unify(t, x)
        return LIST(t)
    raise Unsupported('no common type of %r and %r' % (a, b))


class Ex:
    def __init__(self, ctx):
        self.ctx = ctx                  # Context: contracts, loops, spec functions
        self.obligs = []
        self.nfresh = 0
        self.log = []                   # fresh constants, for generalisation
        self.quiet = 0
        self.spec = 0
        self.frames = {}                # fid -> (mod, parent fid, qual, node)
        self.nfid = 0
        self.ncell = 0
        self.sinks = []                 # exception sinks
        self.cur = ['?']
        self.entry = None
        self.depth = 0
        self.mutcache = {}
        self.notes = set()              # assumptions used
        self.unmatched = []             # loops without annotation whose effects are lost
        self.inlined = set()
        self.usedc = set()
        self.sharedtypes = set()
        self.frozen, self._msts, self._mrc, self._mval = set(), None, None, False
        self.snaps = {}
        self.after, self.topbody = {}, None
        self.allpass, self.fixed = True, {}
        self.nested = {}
        self.special = []               # spec-mode name bindings stack

    # -- helpers ---------------------------------------------------------------
    def fresh(self, s, hint='v'):
        self.nfresh += 1
        c = z3.Const('%s!%d' % (hint, self.nfresh), s)
        self.log.append(c)
        return c

    def freshf(self, hint, *sorts):
        self.nfresh += 1
        f = z3.Function('%s!%d' % (hint, self.nfresh), *sorts)
        self.log.append(f)
        return f

    def oblig(self, st, goal, label, node=None):
        if self.quiet or self.spec:
            return
        goal = zb(goal)
        g = z3.simplify(goal)
        if z3.is_and(g) and not z3.is_quantifier(goal):
            parts = goal.children() if z3.is_and(goal) else g.children()
            if len(parts) > 1:
                for i, p in enumerate(parts):
                    self.oblig(st, p, label, node)
                return
        o = Oblig(label, st.facts(), goal, self.cur[-1], getattr(node, 'lineno', 0))
        if z3.is_true(g):
            o.trivial = True
        self.obligs.append(o)

    def require(self, st, cond, exc, node):
        """a primitive operation that raises exc unless cond holds"""
        if self.spec:
            return
        cond = zb(cond)
        if z3.is_true(z3.simplify(cond)):
            if not self.quiet:
                o = Oblig('no %s' % exc, [], TRUE, self.cur[-1], getattr(node, 'lineno', 0)); o.trivial = True
                self.obligs.append(o)
            return
        if self.sinks:
            bad = st.copy()
            bad.assume(Not(cond), True)
            self.sinks[-1].append((bad, exc))
            st.assume(cond, True)
        else:
            self.oblig(st, cond, 'no %s' % exc, node)
            st.assume(cond)

    def alloc(self, st, content):
        self.ncell += 1
        st.heap[self.ncell] = content
        return Ref(self.ncell)

    def newframe(self, mod, parent, qual, node=None):
        self.nfid += 1
        self.frames[self.nfid] = (mod, parent, qual, node)
        return self.nfid

    # -- places ------------------------------------------------------------------
    def content(self, r, st):
        if isinstance(r, Ref):
            c = st.heap[r.c]
            if isinstance(c, View):
                return self.content(c, st)
            return c
        if r.stale: raise Unsupported('use of an element after its container changed')
        base = self.content(r.base, st)
        if isinstance(base, CDict):
            c = self.from_term(r.t, z3.Select(base.val, r.key))
            if base.default is not None and isinstance(c, CDict): c.default = self.nested_default(base.default, st)
            return c
        if isinstance(base, CPy):
            base = self.tolist(base, st)
        return self.from_term(r.t, seqT(sort(base.t)).at(base.x, r.key))

    def nested_default(self, f, st):
        """what the rows of a defaultdict of defaultdicts do with a missing key"""
        if not isinstance(f, (Clo, Bi)): return None
        if id(f) not in self.nested:
            s2 = st.copy()
            v = self.call(f, [], {}, s2, None)
            c = self.content(v, s2) if self.isref(v) else None
            self.nested[id(f)] = (f, c.default if isinstance(c, CDict) else None)
        return self.nested[id(f)][1]

    def from_term(self, t, x):
        if t.k == 'list': return CList(t.a[0], x)
        if t.k == 'set': return CSet(t.a[0], x)
        if t.k == 'dict':
            d = sort(t)
            if z3.is_app(x) and x.decl().eq(d.constructor(0)):
                return CDict(t.a[0], t.a[1], x.arg(0), x.arg(1))
            return CDict(t.a[0], t.a[1], d.accessor(0, 0)(x), d.accessor(0, 1)(x))
        raise Unsupported('content of %r' % t)

    def setcontent(self, r, c, st):
        if isinstance(r, Ref):
            o = st.heap[r.c]
            if isinstance(o, View):
                return self.setcontent(o, c, st)
            if r.c in self.frozen: raise Unsupported('change of a container that has two names after a branch')
            st.heap[r.c] = c
            if self.snaps: self.poison(r.c, st)
            return
        if not self.spec and repr(r.t) in self.sharedtypes: raise Unsupported('change of an element that may be shared by two containers')
        if r.stale: raise Unsupported('use of an element after its container changed')
        base = self.content(r.base, st)
        x = self.pack_content(c, r.t, st)
        if isinstance(base, CDict):
            self.setcontent(r.base, CDict(base.kt, base.vt, base.dom, z3.Store(base.val, r.key, x), base.default), st)
        else:
            if isinstance(base, CPy):
                base = self.tolist(base, st)
            self.setcontent(r.base, CList(base.t, seqT(sort(base.t)).upd(base.x, r.key, x)), st)

    def root(self, r, st):
        while True:
            if isinstance(r, View): r = r.base
            elif isinstance(st.heap.get(r.c), View): r = st.heap[r.c]
            else: return r.c

    def snapshot(self, r, of, st):
        """cell r holds a copy of (part of) the container of that the program sees as the same object: readable until of changes"""
        if self.spec: return
        self.frozen.add(r.c)
        self.snaps.setdefault(r.c, set()).add(self.root(of, st))

    def poison(self, c, st):
        for k, roots in self.snaps.items():
            if c in roots and k in st.heap: st.heap[k] = View(Ref(c), None, None, True)

    def known(self, st, cond):
        """cond literally among the path conditions: True, its negation: False, else None"""
        todo = [f for _, f in st.pc]
        neg = z3.simplify(Not(cond)); cond = z3.simplify(cond)
        while todo:
            f = todo.pop()
            if z3.is_and(f): todo += f.children(); continue
            if z3.is_not(f) and z3.is_or(f.arg(0)): todo += [Not(x) for x in f.arg(0).children()]; continue
            if z3.is_quantifier(f): continue
            f = z3.simplify(f)
            if f.eq(cond): return True
            if f.eq(neg): return False
        return None

    def stored(self, v, st):
        """v becomes an element of a container: terms hold values, so sharing is tracked here"""
        if self.spec: return
        if isinstance(v, Tup):
            for x in v.items: self.stored(x, st)
        elif isinstance(v, Union):
            for _, x in v.alts: self.stored(x, st)
        elif isinstance(v, Ref) and not isinstance(st.heap.get(v.c), View):
            if not isinstance(st.heap.get(v.c), CObj): self.frozen.add(v.c)
        elif self.isref(v):
            self.sharedtypes.add(repr(self.typeof(v, st)))

    def shared_elems(self, t):
        """a shallow copy of a container with elements of type t"""
        if self.spec: return
        if t.k in ('list', 'set', 'dict'): self.sharedtypes.add(repr(t))
        if t.k in ('tup', 'opt'):
            for x in t.a: self.shared_elems(x)

    def staleviews(self, r, kk, st, keep=None):
        """the container r changes at key kk (None: anywhere): names for elements that may move"""
        if self.spec: return
        def bad(v):
            if v is keep: return None
            w = v
            while isinstance(w, View):
                b = w.base
                if isinstance(b, Ref) and isinstance(st.heap.get(b.c), View): b = st.heap[b.c]
                q = r
                if isinstance(q, Ref) and isinstance(st.heap.get(q.c), View): q = st.heap[q.c]
                same = (isinstance(b, Ref) and isinstance(q, Ref) and b.c == q.c) or (isinstance(b, View) and isinstance(q, View) and b.key.eq(q.key))
                if same:
                    if keep is not None and isinstance(keep, View) and w is v and kk is not None and w.key.eq(kk): return None
                    if kk is not None and z3.is_int_value(w.key) and z3.is_int_value(kk) and not w.key.eq(kk): pass
                    else: return View(v.base, v.key, v.t, True)
                w = b
            return None
        for c, h in list(st.heap.items()):
            if isinstance(h, View):
                b = bad(h)
                if b is not None: st.heap[c] = b
        for env in st.envs.values():
            for n, v in env.items():
                if isinstance(v, View):
                    b = bad(v)
                    if b is not None: env[n] = b

    def isref(self, v):
        return isinstance(v, (Ref, View))

    # -- types, packing --------------------------------------------------------------
    def typeof(self, v, st):
        if v is None: return NONE
        if isinstance(v, bool): return BOOL
        if isinstance(v, int): return INT
        if isinstance(v, (float, fractions.Fraction)): return REAL
        if isinstance(v, str): return STR
        if isinstance(v, Sym): return v.t
        if isinstance(v, Tup): return Ty('tup', [self.typeof(x, st) for x in v.items], (v.nt.fields or None) if v.nt else None, v.nt)
        if isinstance(v, tuple): return Ty('tup', [self.typeof(x, st) for x in v])
        if isinstance(v, (list, set, frozenset)):
            t = UNK
            for x in v: t = unify(t, self.typeof(x, st))
            return LIST(t) if isinstance(v, list) else SET(t)
        if isinstance(v, dict):
            k = w = UNK
            for x, y in v.items():
                k = unify(k, self.typeof(x, st)); w = unify(w, self.typeof(y, st))
            return DICT(k, w)
        if self.isref(v):
            c = self.content(v, st)
            if isinstance(c, CList): return LIST(c.t)
            if isinstance(c, CPy):
                t = UNK
                for x in c.items: t = unify(t, self.typeof(x, st))
                return LIST(t)
            if isinstance(c, CSet): return SET(c.t)
            if isinstance(c, CDict): return DICT(c.kt, c.vt)
            raise Unsupported('type of object')
        if isinstance(v, Union):
            t = UNK
            for g, x in v.alts: t = unify(t, self.typeof(x, st))
            return t
        if isinstance(v, Lazy):
            return LIST(self.typeof(v.it.get(z3.Int('i!t')), st))
        raise Unsupported('type of %r' % (type(v).__name__,))

    def pack(self, v, t, st):
        """z3 term of v at type t"""
        k = t.k
        if isinstance(v, Ext): return v.pack(self, t, st)
        if isinstance(v, Union):
            r = None
            for g, x in reversed(v.alts):
                try:
                    y = self.pack(x, t, st)
                except Unsupported:
                    continue
                r = y if r is None else If(g, y, r)
            if r is None: raise Unsupported('pack union at %r' % t)
            return r
        if isinstance(v, Sym):
            if v.t == t or (k == 'char' and v.t.k == 'str') : return v.x
            if k == 'real' and v.t.k == 'int': return z3.ToReal(v.x)
            if k == 'real' and v.t.k == 'bool': return If(v.x, z3.RealVal(1), z3.RealVal(0))
            if k == 'int' and v.t.k == 'bool': return If(v.x, z3.IntVal(1), z3.IntVal(0))
            if k == 'opt':
                if v.t.k == 'opt':
                    so, si = sort(t), sort(v.t)
                    inner = self.pack(self.unpack(si.accessor(1, 0)(v.x), v.t.a[0], st), t.a[0], st)
                    return If(si.recognizer(0)(v.x), so.constructor(0)(), so.constructor(1)(inner))
                return sort(t).constructor(1)(self.pack(v, t.a[0], st))
            if v.t.k == 'opt':     # value is needed at the inner type
                s = sort(v.t)
                return self.pack(self.unpack(s.accessor(1, 0)(v.x), v.t.a[0], st), t, st)
            if v.t.k == 'tup' and k in ('tup', 'list'):
                return self.pack(self.unpack(v.x, v.t, st), t, st)
            raise Unsupported('pack %r as %r' % (v.t, t))
        if k == 'opt':
            s = sort(t)
            if v is None: return s.constructor(0)()
            return s.constructor(1)(self.pack(v, t.a[0], st))
        if k == 'bool' and isinstance(v, bool): return z3.BoolVal(v)
        if k == 'none': return TRUE
        if k == 'int' and isinstance(v, (int, bool)): return z3.IntVal(int(v))
        if k == 'real' and isinstance(v, (int, bool, float, fractions.Fraction)): return z3.RealVal(str(fractions.Fraction(str(v)) if isinstance(v, float) else v))
        if k in ('str', 'char') and isinstance(v, str): return sconst(v)
        if k == 'tup':
            items = v.items if isinstance(v, Tup) else v if isinstance(v, tuple) else None
            if items is not None and t.cls is th.OPEN and len(items) > len(t.a): items = items[:len(t.a)]
            if items is not None and len(items) == len(t.a):
                S = sort(t)
                xs = [self.pack(x, y, st) for x, y in zip(items, t.a)]
                # the fields of one tuple are that tuple
                if xs and all(z3.is_app(x) and x.num_args() == 1 and x.decl().eq(S.accessor(0, i)) for i, x in enumerate(xs)) and all(x.arg(0).eq(xs[0].arg(0)) for x in xs): return xs[0].arg(0)
                return S.constructor(0)(*xs)
        if self.isref(v):
            return self.pack_content(self.content(v, st), t, st)
        if k == 'list' and isinstance(v, (list, tuple, Tup)):
            items = v.items if isinstance(v, Tup) else v
            return self.pack_content(CPy(items), t, st)
        if k == 'list' and isinstance(v, Lazy):
            return self.pack_content(self.content(self.tolistref(v, st), st), t, st)
        if k == 'set' and isinstance(v, (set, frozenset)):
            r = z3.K(sort(t.a[0]), FALSE)
            for x in sorted(v, key=repr): r = z3.Store(r, self.pack(x, t.a[0], st), TRUE)
            return r
        if k == 'dict' and isinstance(v, dict):
            return self.pack_content(self.dict_content(v, t, st), t, st)
        raise Unsupported('pack %s as %r' % (type(v).__name__, t))

    def default_term(self, s):
        if s == z3.IntSort(): return z3.IntVal(0)
        if s == z3.RealSort(): return z3.RealVal(0)
        if s == z3.BoolSort(): return FALSE
        return z3.Const('dflt@' + th.sname(s), s)

    def dict_content(self, v, t, st):
        dom = z3.K(sort(t.a[0]), FALSE)
        val = z3.K(sort(t.a[0]), self.default_term(sort(t.a[1])))
        for x, y in v.items():
            kk = self.pack(x, t.a[0], st)
            dom, val = z3.Store(dom, kk, TRUE), z3.Store(val, kk, self.pack(y, t.a[1], st))
        return CDict(t.a[0], t.a[1], dom, val)

    def pack_content(self, c, t, st):
        if t.k == 'list':
            S = seqT(sort(t.a[0]))
            if isinstance(c, CPy):
                r = S.empty
                for x in c.items: r = S.app(r, self.pack(x, t.a[0], st))
                return r
            if isinstance(c, CList):
                if c.t.k == 'unk': return S.empty
                if c.t == t.a[0]: return c.x
                return self.convert_seq(c, t.a[0], st)
        if t.k == 'tup' and isinstance(c, CPy) and (len(c.items) == len(t.a) or t.cls is th.OPEN and len(c.items) > len(t.a)):
            # a list of fixed length used as a record (it is not changed any more: it is an element of a container now)
            return self.pack(Tup(c.items), t, st)
        if t.k == 'set' and isinstance(c, CSet):
            if c.t.k == 'unk': return z3.K(sort(t.a[0]), FALSE)
            if c.t == t.a[0]: return c.arr
        if t.k == 'dict' and isinstance(c, CDict):
            s = sort(t)
            if c.kt.k == 'unk':
                return s.constructor(0)(z3.K(sort(t.a[0]), FALSE), z3.K(sort(t.a[0]), self.default_term(sort(t.a[1]))))
            if (c.kt, c.vt) == t.a:
                # selecting and rebuilding gives back the same dictionary
                d, v = s.accessor(0, 0), s.accessor(0, 1)
                if z3.is_app(c.dom) and z3.is_app(c.val) and c.dom.num_args() == 1 and c.val.num_args() == 1 and c.dom.decl().eq(d) and c.val.decl().eq(v) and c.dom.arg(0).eq(c.val.arg(0)):
                    return c.dom.arg(0)
                return s.constructor(0)(c.dom, c.val)
            if c.kt == t.a[0]:
                nv = self.fresh(z3.ArraySort(sort(c.kt), sort(t.a[1])), 'cv')
                kk = z3.Const('k!c', sort(c.kt))
                st.assume(z3.ForAll([kk], z3.Select(nv, kk) == self.pack(self.unpack(z3.Select(c.val, kk), c.vt, st), t.a[1], st), patterns=[z3.Select(nv, kk)]))
                return s.constructor(0)(c.dom, nv)
        raise Unsupported('pack content %s as %r' % (type(c).__name__, t))

    def convert_seq(self, c, t, st):
        """same sequence at another element type (e.g. int -> real)"""
        S, R = seqT(sort(c.t)), seqT(sort(t))
        r = self.fresh(R.sort, 'cv')
        i = z3.Int('i!cv')
        st.assume(R.len(r) == S.len(c.x))
        st.assume(z3.ForAll([i], Implies(And(0 <= i, i < S.len(c.x)),
                  R.at(r, i) == self.pack(self.unpack(S.at(c.x, i), c.t, st), t, st)), patterns=[R.at(r, i)]))
        return r

    def unpack(self, x, t, st):
        k = t.k
        if k in ('int', 'bool', 'real', 'str', 'abs'):
            if k == 'int' and z3.is_int_value(x): return x.as_long()
            if k == 'bool' and (z3.is_true(x) or z3.is_false(x)): return z3.is_true(x)
            return Sym(t, x)
        if k == 'none': return None
        if k == 'char': return Sym(STR, x)
        if k == 'tup':
            s = sort(t)
            if z3.is_app(x) and x.decl().eq(s.constructor(0)):
                args = x.children()
            else:
                args = [s.accessor(0, i)(x) for i in range(len(t.a))]
            return Tup([self.unpack(a, y, st) for a, y in zip(args, t.a)], t.cls)
        if k == 'opt':
            return Sym(t, x)
        if k in ('list', 'set', 'dict'):
            # a container inside a value: changes through this name would not reach the value
            r = self.alloc(st, self.from_term(t, x))
            self.frozen.add(r.c)
            return r
        raise Unsupported('unpack %r' % t)

    def optval(self, v, st, node=None, exc='TypeError'):
        """inner value of an optional; obligation that it is not None"""
        if isinstance(v, Sym) and v.t.k == 'opt':
            s = sort(v.t)
            self.require(st, s.recognizer(1)(v.x), exc + ' (None)', node)
            return self.unpack(s.accessor(1, 0)(v.x), v.t.a[0], st)
        if isinstance(v, Union):
            keep = []
            for g, x in v.alts:
                if x is None or x is UNINIT:
                    self.require(st, Not(g), exc + ' (None)', node)
                else:
                    keep.append((g, x))
            if not keep:
                raise Unsupported('only None', node)
            if len(keep) == 1:
                return keep[0][1]
            return self.mergev([g for g, _ in keep], [x for _, x in keep], st, node)
        return v

    def follows(self, st, cond):
        """cond follows from the ground path conditions"""
        if self.known(st, cond): return True
        q = z3.Solver()
        q.set('timeout', 1000)
        q.add([f for f in st.facts() if not th.has_quant(f)] + [Not(cond)])
        return q.check() == z3.unsat

    def nonone(self, v, st):
        """the inner value of an optional that a path condition says is not None"""
        if isinstance(v, Sym) and v.t.k == 'opt' and self.follows(st, sort(v.t).recognizer(1)(v.x)):
            return self.unpack(sort(v.t).accessor(1, 0)(v.x), v.t.a[0], st)
        return v

    def fresh_of(self, t, st, hint='v'):
        if t.k == 'fun':
            f = self.freshf(hint, *[sort(a) for a in t.a])
            return FunV(t, f)
        x = self.fresh(sort(t), hint)
        if t.k == 'char':
            cc = self.fresh(z3.IntSort(), hint)
            st.assume(And(0 <= cc, cc <= 0x10FFFF))
            return Sym(STR, STRT.unit(cc))
        if t.k in ('list', 'set', 'dict'):
            return self.alloc(st, self.from_term(t, x))
        return self.unpack(x, t, st)

    # -- merging -----------------------------------------------------------------------
    def merge(self, base, outs):
        """outs: [(state, value)] that share pc[:base] -> (state, value)"""
        if len(outs) == 1:
            return outs[0]
        first = outs[0][0]
        new = State(list(first.pc[:base]))
        gs = []
        for s, v in outs:
            g = [f for k, f in s.pc[base:] if k == 'g']
            g = And(*g) if len(g) > 1 else g[0] if g else TRUE
            gs.append(g)
        # exactly one alternative was taken
        named = []
        for g in gs:
            if len(outs) > 1 and not (z3.is_const(g) or (z3.is_not(g) and z3.is_const(g.arg(0)))) :
                b = self.fresh(z3.BoolSort(), 'br')
                new.pc.append(('f', b == g))
                g = b
            named.append(g)
        gs = named
        new.pc.append(('g', Or(*gs)))
        for (s, v), g in zip(outs, gs):
            for k, f in s.pc[base:]:
                if k == 'f':
                    new.pc.append(('f', Implies(g, f)))
        # heap
        cells = {}
        for s, _ in outs:
            for c in s.heap: cells[c] = 1
        self._msts, self._mrc = [s for s, _ in outs], None
        # containers before the objects and lists that refer to them
        def depth(c, s, n=0):
            h = s.heap.get(c)
            if not isinstance(h, CPy) or n > 5: return 0
            return 1 + max([depth(x.c, s, n + 1) for x in h.items if isinstance(x, Ref)] or [0])
        rank = lambda c: max(9 if isinstance(s.heap[c], CObj) else 1 if isinstance(s.heap[c], View) else depth(c, s) for s, _ in outs if c in s.heap)
        for c in sorted(cells, key=lambda c: (rank(c), c)):
            have = [(g, s.heap[c]) for (s, _), g in zip(outs, gs) if c in s.heap]
            if all(h[1] is have[0][1] for h in have):
                new.heap[c] = have[0][1]
            else:
                new.heap[c] = self.mergec([g for g, _ in have], [h for _, h in have], [s for s, _ in outs if c in s.heap], new)
        fids = set(first.envs)
        for s, _ in outs: fids &= set(s.envs)
        for f in fids:
            e = {}
            names = {}
            for s, _ in outs:
                for n in s.envs[f]: names[n] = 1
            for n in names:
                vs = [s.envs[f].get(n, UNINIT) for s, _ in outs]
                e[n] = vs[0] if all(x is vs[0] for x in vs) else self.mergev(gs, vs, new)
            new.envs[f] = e
        vs = [v for _, v in outs]
        self._mval = True
        val = vs[0] if all(x is vs[0] for x in vs) else self.mergev(gs, vs, new)
        self._mval = False
        self._msts = None
        return new, val

    def refcounts(self, s):
        """how many places refer to each cell"""
        n = {}
        def see(v):
            if isinstance(v, Ref): n[v.c] = n.get(v.c, 0) + 1
            elif isinstance(v, View): see(v.base)
            elif isinstance(v, Tup):
                for x in v.items: see(x)
            elif isinstance(v, Union):
                for _, x in v.alts: see(x)
            elif isinstance(v, Bound): see(v.obj)
            elif isinstance(v, BM): see(v.recv)
        for f, env in s.envs.items():
            for v in env.values(): see(v)
        for h in s.heap.values():
            if isinstance(h, CPy):
                for x in h.items: see(x)
            elif isinstance(h, CObj):
                for x in h.fields.values(): see(x)
            elif isinstance(h, View): see(h)
        return n

    def joined(self, vs, r, st):
        """r stands for one of the containers vs: a later change through either name would be missed
        when the originals stay reachable, so both are frozen then"""
        cells = {v.c for v in vs if isinstance(v, Ref)}
        for v in vs:
            if isinstance(v, View): self.snapshot(r, v, st)
        if self._msts is None:
            m = self.refcounts(st)
            shared = any(m.get(c, 0) > 0 for c in cells)
        else:
            if self._mrc is None: self._mrc = [self.refcounts(s) for s in self._msts]
            lim = 0 if self._mval else 1
            shared = any(m.get(c, 0) > lim for m in self._mrc for c in cells)
        if shared:
            self.frozen |= cells
            self.frozen.add(r.c)
        return r

    def ite(self, gs, xs):
        r = xs[-1]
        for g, x in reversed(list(zip(gs[:-1], xs[:-1]))):
            r = x if x.eq(r) else If(g, x, r)
        return r

    def mergev(self, gs, vs, st, node=None):
        if all(v is vs[0] for v in vs): return vs[0]
        if all(isinstance(v, (int, str, float, bool)) and not isinstance(v, Sym) for v in vs) and all(type(v) == type(vs[0]) and v == vs[0] for v in vs):
            return vs[0]
        if any(v is UNINIT for v in vs):
            alts = [(g, v) for g, v in zip(gs, vs)]
            return Union(self.flat(alts))
        if any(isinstance(v, Union) for v in vs):
            return Union(self.flat(list(zip(gs, vs))))
        if all(isinstance(v, Sym) and v.t == vs[0].t for v in vs):
            x = self.ite(gs, [v.x for v in vs])
            return Sym(vs[0].t, x)
        if all(isinstance(v, Ref) for v in vs) and all(v.c == vs[0].c for v in vs):
            return vs[0]
        if all(isinstance(v, Tup) for v in vs) and len({len(v.items) for v in vs}) == 1:
            return Tup([self.mergev(gs, [v.items[i] for v in vs], st) for i in range(len(vs[0].items))], vs[0].nt)
        if any(self.isref(v) for v in vs) or any(isinstance(v, (Clo, Bound, FnRef, ClsRef, BM, Bi, Lazy, FunV)) for v in vs):
            if all(self.isref(v) for v in vs):
                cs = [self.content(v, st) for v in vs]
                if not any(isinstance(c, CObj) for c in cs) and len({CList if isinstance(c, CPy) else type(c) for c in cs}) == 1:
                    return self.joined(vs, self.alloc(st, self.mergec(gs, cs, None, st)), st)
            return Union(self.flat(list(zip(gs, vs))))
        try:
            t = UNK
            for v in vs: t = unify(t, self.typeof(v, st))
            return self.unpack(self.ite(gs, [self.pack(v, t, st) for v in vs]), t, st)
        except Unsupported:
            return Union(self.flat(list(zip(gs, vs))))

    def flat(self, alts):
        out = []
        for g, v in alts:
            if isinstance(v, Union):
                out += [(And(g, g2), v2) for g2, v2 in v.alts]
            else:
                out.append((g, v))
        # join identical alternatives
        res = []
        for g, v in out:
            for i, (g2, v2) in enumerate(res):
                if v2 is v or (isinstance(v, Ref) and isinstance(v2, Ref) and v.c == v2.c):
                    res[i] = (Or(g2, g), v2)
                    break
            else:
                res.append((g, v))
        return res

    def mergec(self, gs, cs, sts, st):
        if all(c is cs[0] for c in cs): return cs[0]
        if any(isinstance(c, View) for c in cs):
            if all(isinstance(c, View) for c in cs) and all(c.key.eq(cs[0].key) for c in cs): return cs[0]
            raise Unsupported('merge of moved containers')
        if all(isinstance(c, CObj) for c in cs):
            f = {}
            for n in {n for c in cs for n in c.fields}:
                vs = [c.fields.get(n, UNINIT) for c in cs]
                f[n] = vs[0] if all(v is vs[0] for v in vs) else self.mergev(gs, vs, st)
            return CObj(cs[0].cls, f)
        if all(isinstance(c, CPy) for c in cs) and len({len(c.items) for c in cs}) == 1:
            return CPy([self.mergev(gs, [c.items[i] for c in cs], st) for i in range(len(cs[0].items))])
        if all(isinstance(c, (CPy, CList)) for c in cs):
            t = UNK
            for c in cs:
                if isinstance(c, CList): t = unify(t, c.t)
                else:
                    for x in c.items: t = unify(t, self.typeof(x, st))
            if t.k == 'unk': return cs[0]
            return CList(t, self.ite(gs, [self.pack_content(c, LIST(t), st) for c in cs]))
        if all(isinstance(c, CSet) for c in cs):
            t = UNK
            for c in cs: t = unify(t, c.t)
            if t.k == 'unk': return cs[0]
            return CSet(t, self.ite(gs, [self.pack_content(c, SET(t), st) for c in cs]))
        if all(isinstance(c, CDict) for c in cs):
            k = v = UNK
            for c in cs: k, v = unify(k, c.kt), unify(v, c.vt)
            if k.k == 'unk': return cs[0]
            ts = []
            for c in cs:
                if c.kt.k == 'unk':
                    ts.append((z3.K(sort(k), FALSE), z3.K(sort(k), self.default_term(sort(v)))))
                elif (c.kt, c.vt) == (k, v): ts.append((c.dom, c.val))
                else:
                    x = self.pack_content(c, DICT(k, v), st); ts.append((x.arg(0), x.arg(1)))
            return CDict(k, v, self.ite(gs, [d for d, _ in ts]), self.ite(gs, [x for _, x in ts]), cs[0].default)
        raise Unsupported('merge of %s' % [type(c).__name__ for c in cs])

    # -- truth, equality ----------------------------------------------------------------
    def truth(self, v, st, node=None):
        if v is None: return FALSE
        if isinstance(v, bool): return zb(v)
        if isinstance(v, (int, float, str, tuple, list, set, dict, frozenset)): return zb(bool(v))
        if isinstance(v, Sym):
            k = v.t.k
            if k == 'bool': return v.x
            if k in ('int', 'real'): return v.x != 0
            if k == 'str': return STRT.len(v.x) > 0
            if k == 'opt':
                s = sort(v.t)
                return And(s.recognizer(1)(v.x), self.truth(self.unpack(s.accessor(1, 0)(v.x), v.t.a[0], st), st))
            if k == 'none': return FALSE
        if isinstance(v, Tup): return zb(len(v.items) > 0)
        if self.isref(v):
            c = self.content(v, st)
            if isinstance(c, CPy): return zb(len(c.items) > 0)
            if isinstance(c, CList):
                if c.t.k == 'unk': return FALSE
                return seqT(sort(c.t)).len(c.x) > 0
            if isinstance(c, (CDict, CSet)):
                if (c.kt if isinstance(c, CDict) else c.t).k == 'unk': return FALSE
                ks, kidx, S = self.enum(c, st)
                return S.len(ks) > 0
            if isinstance(c, CObj):
                ln = c.cls.find('__len__') if isinstance(c.cls, ClsRef) else None
                if ln: return self.truth(self.call(Bound(v, ln), [], {}, st, node), st)
                return TRUE
        if isinstance(v, Union):
            r = FALSE
            for g, x in v.alts:
                r = Or(r, And(g, self.truth(x, st)))
            return r
        if isinstance(v, (Clo, FnRef, ClsRef, Bound, BM, Bi, FunV, NT)): return TRUE
        if isinstance(v, Lazy): return TRUE
        if isinstance(v, ExtRef): return TRUE
        raise Unsupported('truth of %s' % type(v).__name__, node)

    def eq(self, a, b, st, node=None):
        if a is None or b is None:
            if a is b: return TRUE
            o = b if a is None else a
            if isinstance(o, Sym) and o.t.k == 'opt': return sort(o.t).recognizer(0)(o.x)
            if isinstance(o, Union): return Or(*[And(g, self.eq(None, x, st)) for g, x in o.alts])
            return FALSE
        if isinstance(a, Ext) or isinstance(b, Ext): raise Unsupported('equality of arrays', node)
        ca, cb = not isinstance(a, (Sym, Tup, Ref, View, Union, Lazy)), not isinstance(b, (Sym, Tup, Ref, View, Union, Lazy))
        if ca and cb:
            try:
                return zb(bool(a == b))
            except Exception:
                return zb(a is b)
        if isinstance(a, Union): return Or(*[And(g, self.eq(x, b, st)) for g, x in a.alts])
        if isinstance(b, Union): return Or(*[And(g, self.eq(a, x, st)) for g, x in b.alts])
        if isinstance(a, Tup) or isinstance(b, Tup):
            ia = a.items if isinstance(a, Tup) else a if isinstance(a, tuple) else None
            ib = b.items if isinstance(b, Tup) else b if isinstance(b, tuple) else None
            if ia is not None and ib is not None:
                if len(ia) != len(ib): return FALSE
                return And(*[self.eq(x, y, st) for x, y in zip(ia, ib)]) if ia else TRUE
        for u, w in ((a, b), (b, a)):
            if isinstance(u, Sym) and u.t.k == 'opt' and not (isinstance(w, Sym) and w.t.k == 'opt'):
                s = sort(u.t)
                return And(s.recognizer(1)(u.x), self.eq(self.unpack(s.accessor(1, 0)(u.x), u.t.a[0], st), w, st))
        if isinstance(a, str): a, b = b, a
        if isinstance(a, Sym) and a.t.k == 'str' and isinstance(b, str):
            return self.streq_lit(a.x, b)
        ta, tb = self.typeof(a, st), self.typeof(b, st)
        try:
            t = unify(ta, tb)
        except Unsupported:
            return FALSE
        if t.k == 'unk': return TRUE
        return self.eqt(self.pack(a, t, st), self.pack(b, t, st), t)

    def streq_lit(self, x, s):
        cs = th.codes(x)
        if cs is not None: return zb(cs == tuple(map(ord, s)))
        if th.is_unit(x):
            return (x.arg(0) == ord(s)) if len(s) == 1 else FALSE
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            return If(x.arg(0), self.streq_lit(x.arg(1), s), self.streq_lit(x.arg(2), s))
        if s == '': return STRT.len(x) == 0
        return And(STRT.len(x) == len(s), *[STRT.at(x, i) == ord(c) for i, c in enumerate(s)])

    def eqt(self, x, y, t):
        """equality of packed terms with extensionality triggers"""
        if t.k == 'char': t = STR
        if t.k in ('str', 'list'):
            if x.eq(y): return TRUE
            if t.k == 'str':
                for u, w in ((x, y), (y, x)):
                    cs = th.codes(u)
                    if cs is not None: return self.streq_lit(w, ''.join(map(chr, cs)))
                if th.is_unit(x) and th.is_unit(y): return x.arg(0) == y.arg(0)
            return seqT(sort(t.a[0]) if t.k == 'list' else z3.IntSort()).eq(x, y)
        if t.k == 'tup':
            s = sort(t)
            g = lambda z, i: z.arg(i) if z3.is_app(z) and z.decl().eq(s.constructor(0)) else s.accessor(0, i)(z)
            return And(*[self.eqt(g(x, i), g(y, i), u) for i, u in enumerate(t.a)])
        if t.k == 'opt':
            s = sort(t)
            return And(s.recognizer(0)(x) == s.recognizer(0)(y),
                       Implies(s.recognizer(1)(x), self.eqt(s.accessor(1, 0)(x), s.accessor(1, 0)(y), t.a[0])))
        if t.k == 'dict':
            k = self.boundv(sort(t.a[0]), 'k')
            c, d = self.from_term(t, x), self.from_term(t, y)
            return z3.ForAll([k], And(z3.Select(c.dom, k) == z3.Select(d.dom, k),
                   Implies(z3.Select(c.dom, k), self.eqt(z3.Select(c.val, k), z3.Select(d.val, k), t.a[1]))),
                   patterns=self.pats([z3.Select(c.dom, k), z3.Select(d.dom, k)], [k]))
        if t.k == 'set':
            k = self.boundv(sort(t.a[0]), 'k')
            return z3.ForAll([k], z3.Select(x, k) == z3.Select(y, k), patterns=self.pats([z3.Select(x, k), z3.Select(y, k)], [k]))
        return x == y

    def boundv(self, s, hint='q'):
        self.nfresh += 1
        return z3.Const('%s?%d' % (hint, self.nfresh), s)

    # -- trigger selection ------------------------------------------------------------------
    def pats(self, bodies, vs):
        """patterns for ForAll vs: smallest uninterpreted terms with the variables as direct arguments"""
        cands, loose = {}, {}
        vids = {v.get_id(): i for i, v in enumerate(vs)}
        seen = {}

        def fv(t):
            i = t.get_id()
            if i in seen: return seen[i]
            if z3.is_quantifier(t):
                r = fv(t.body())
                seen[i] = r
                return r
            r = frozenset([vids[i]]) if i in vids else frozenset()
            for c in t.children(): r = r | fv(c)
            seen[i] = r
            return r

        def bad(t):
            if z3.is_quantifier(t) or z3.is_var(t): return True
            if z3.is_app(t) and t.num_args() and t.decl().kind() not in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT, z3.Z3_OP_DT_CONSTRUCTOR, z3.Z3_OP_DT_ACCESSOR, z3.Z3_OP_ADD, z3.Z3_OP_SUB):
                return True
            return any(bad(c) for c in t.children())

        def hasvar(t):
            return z3.is_var(t) or (not z3.is_quantifier(t) and any(hasvar(c) for c in t.children()))

        visited = set()

        def walk(t):
            i = t.get_id()
            if i in visited: return
            visited.add(i)
            if z3.is_quantifier(t):
                walk(t.body())
                return
            if not z3.is_app(t): return
            for c in t.children(): walk(c)
            if t.num_args() and t.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT) and t.decl().name().split('@')[0] not in ('eq', 'sk', 'len', 'unit', 'cat', 'app', 'dsum'):
                f = fv(t)
                if f and not bad(t) and not hasvar(t):
                    ok = all(c.get_id() in vids or not fv(c) or (z3.is_app(c) and c.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT, z3.Z3_OP_DT_CONSTRUCTOR, z3.Z3_OP_DT_ACCESSOR) and c.num_args() > 0 and self._clean(c, vids, fv)) for c in t.children())
                    (cands if ok else loose)[i] = t

        for b in bodies: walk(b)
        full = frozenset(range(len(vs)))

        def size(t):
            return 1 + sum(size(c) for c in t.children())
        for pool in (cands, {**cands, **loose}):
            ts = sorted(pool.values(), key=size)
            single = [t for t in ts if fv(t) == full]
            if single:
                out = []
                for t in single:
                    # skip candidates that contain a smaller chosen one
                    if not any(self._contains(t, o) for o in out): out.append(t)
                return out[:6]
            # greedy multi-pattern
            cov, mp = frozenset(), []
            for t in ts:
                if fv(t) - cov:
                    mp.append(t); cov = cov | fv(t)
            if cov == full:
                return [z3.MultiPattern(*mp)]
        return []

    def _clean(self, c, vids, fv):
        for x in c.children():
            if x.get_id() in vids or not fv(x): continue
            if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT, z3.Z3_OP_DT_CONSTRUCTOR, z3.Z3_OP_DT_ACCESSOR) and self._clean(x, vids, fv): continue
            return False
        return True

    def _contains(self, t, o):
        if t.get_id() == o.get_id(): return True
        return any(self._contains(c, o) for c in t.children())

    def forall(self, vs, body, pats=None):
        if not vs: return body
        body = zb(body)
        if z3.is_true(body): return body
        p = pats if pats is not None else self.pats([body], vs)
        return z3.ForAll(vs, body, patterns=p) if p else z3.ForAll(vs, body)

    # -- enumeration of sets and dictionaries --------------------------------------------------
    def enum(self, c, st):
        dom, kt = (c.dom, c.kt) if isinstance(c, CDict) else (c.arr, c.t)
        S = seqT(sort(kt))
        if c.enum is None:
            ks = self.fresh(S.sort, 'ks')
            kidx = self.freshf('kidx', sort(kt), z3.IntSort())
            D = self.fresh(dom.sort(), 'dom')
            i, k = z3.Int('i!e'), z3.Const('k!e', sort(kt))
            fs = [D == dom, Or(S.len(ks) <= 0, z3.Select(D, S.at(ks, z3.IntVal(0)))), Or(S.len(ks) <= 1, z3.Select(D, S.at(ks, z3.IntVal(1)))),
                  z3.ForAll([i], Implies(And(0 <= i, i < S.len(ks)), And(z3.Select(D, S.at(ks, i)), kidx(S.at(ks, i)) == i)), patterns=[S.at(ks, i)]),
                  z3.ForAll([k], Implies(z3.Select(D, k), And(0 <= kidx(k), kidx(k) < S.len(ks), S.at(ks, kidx(k)) == k)), patterns=[z3.Select(D, k), kidx(k)])]
            if c.size: fs += c.size(S.len(ks))
            c.enum = (ks, kidx, S, fs)
        ks, kidx, S, fs = c.enum
        have = {f.get_id() for _, f in st.pc[-400:]}
        if fs[0].get_id() not in have and not any(f.get_id() == fs[0].get_id() for _, f in st.pc):
            for f in fs: st.assume(f)
        return ks, kidx, S
