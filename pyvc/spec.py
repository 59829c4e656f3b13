"""Specification language, contracts, specification functions and lemmas."""
import ast, difflib, json, os
import z3
from .stmt import *
from .stmt import loops_of, locals_of
from .exec import (Ex, Sym, Tup, Ref, View, Union, Clo, Bound, BM, Bi, FunV, Lazy, UNINIT, CList, CPy, CDict, CSet,
                   CObj, State, It, Oblig, simp, zb, zi, conc_int, unify, UNK, And, Or, Not, If, Implies, TRUE, FALSE, Unsupported)
from .expr import ExprMixin, occf
from .calls import CallMixin
from .stmt import StmtMixin
from . import loader, theory as th

BASE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'baseline_names.json')


ALIASES = {}   # name -> Ty, for types of named tuples


def ty(s):
    """'dict[str,tup[int,str]]' -> Ty"""
    if isinstance(s, Ty) or callable(s): return s
    if s.startswith('obj '): return Ty('obj', (s[4:].strip(),))
    e = ast.parse(s, mode='eval').body
    def rec(e):
        if isinstance(e, ast.Name):
            if e.id in ALIASES: return ALIASES[e.id]
            if e.id in ('int', 'bool', 'real', 'str', 'char', 'none'): return Ty(e.id)
            return ABS(e.id)
        k = e.value.id
        a = e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]
        if k == 'fun': return FUN([rec(x) for x in a[:-1]], rec(a[-1]))
        if k == 'ddict': return Ty('ddict', (rec(a[0]), rec(a[1]), a[2].id))
        return Ty(k, [rec(x) for x in a])
    return rec(e)


class Contract:
    def __init__(self, key, params=(), requires=(), ensures=(), returns=None, modifies=(), pure=False, raises=None,
                 ensures_exc=(), inline=False, assumed=False, loops=None, prop=None, hint=None, name=None, split=None, captures=(), paths=False, alts=None, shares=False, noinv=False, owns=False, chain=False, after=None):
        self.key, self.params = key, [(n, ty(t) if isinstance(t, str) else t) for n, t in params]
        self.requires, self.ensures, self.returns = list(requires), list(ensures), ty(returns) if isinstance(returns, str) and returns[0] != '=' else returns
        self.modifies, self.pure, self.raises = list(modifies), pure, dict(raises or {})
        self.ensures_exc, self.inline, self.assumed, self.prop = list(ensures_exc), inline, assumed, prop
        # {variable: (type, assertions)} proved after every top-level statement of the body that changes the variable, and all that is kept of it
        self.after = {n: (ty(t), list(q)) for n, (t, q) in (after or {}).items()}
        self.chain = chain   # earlier postconditions may be used to prove later ones
        self.name = name or key
        self.split, self.paths, self.noinv, self.owns = split, paths, noinv, owns
        self.alts, self.shares = {k: [ty(x) for x in v] for k, v in (alts or {}).items()}, shares
        # variables of the enclosing function a nested function reads
        self.captures = [(n, ty(t) if isinstance(t, str) else t) for n, t in captures]


class ClassSpec:
    def __init__(self, key, fields, inv=()):
        self.key, self.fields, self.inv = key, {n: ty(t) if isinstance(t, str) else t for n, t in fields.items()}, list(inv)


class Loop:
    def __init__(self, inv=(), types=None, decreases=None, cut=True, name=None):
        self.inv, self.types, self.decreases, self.cut, self.name = list(inv), {k: ty(v) for k, v in (types or {}).items()}, decreases, cut, name


class SpecFn:
    """recursive specification function, unfolded one level per occurrence"""
    def __init__(self, name, params, ret, body=None, axioms=None, fold=False, hidden=False):
        self.hidden = hidden # the definition is used in the proofs of lemmas only
        self.fold = fold     # the definition is used where its right side occurs
        self.name, self.params, self.ret, self.body = name, [(n, ty(t)) for n, t in params], ty(ret), body
        ss = [sort(t) for _, t in self.params] + [sort(self.ret)]
        self.f = z3.Function('sf_' + name, *ss)
        self.rec = body is not None and any(isinstance(n, ast.Name) and n.id == name for n in ast.walk(ast.parse(body.strip(), mode='eval')))
        self.f0 = z3.Function('sf0_' + name, *ss) if self.rec else self.f
        self.defining = False
        self.extra = axioms
        self._ax = None

    def apply(self, ex, args, st):
        xs = [ex.pack(a, t, st) for a, (_, t) in zip(args, self.params)]
        r = (self.f0 if self.defining else self.f)(*xs)
        return ex.unpack(r, self.ret, st)

    def axioms(self, ctx):
        if self._ax is None:
            ex = Engine(ctx)
            ex.spec = 1
            st = State()
            fid = ex.newframe(None, None, '<spec>')
            vs, env = [], {}
            for n, t in self.params:
                v = z3.Const('p_' + n, sort(t))
                vs.append(v)
                env[n] = ex.alloc(st, ex.from_term(t, v)) if t.k in ('list', 'set', 'dict') else ex.unpack(v, t, st)
            A = []
            if self.body is not None:
                st.envs[fid] = env
                mark = len(ex.log)
                self.defining = True
                try:
                    e = ast.parse(self.body.strip(), mode='eval').body
                    if self.ret.k == 'bool': x = ex.cond(e, st, fid)
                    else: x = ex.pack(ex.ev(e, st, fid), self.ret, st)
                finally:
                    self.defining = False
                fr = ex.log[mark:]
                sub = ex.generaliser(vs, fr)
                l = self.f(*vs)
                for f in st.facts(): A.append(z3.ForAll(vs, sub(f), patterns=[l]))
                A.append(z3.ForAll(vs, l == sub(x), patterns=[sub(x) if self.fold else l]))
                if self.rec: A.append(z3.ForAll(vs, l == self.f0(*vs), patterns=[l]))
            if self.extra: A += self.extra(self)
            self._ax = A
        return self._ax


class Lemma:
    def __init__(self, name, params, requires, ensures, measure=None, trig=None, use=(), hints=(), assumed=False, export=True, pull=False):
        self.name, self.params = name, [(n, ty(t)) for n, t in params]
        self.pull = pull      # used as soon as the names of its trigger occur
        self.requires, self.ensures, self.measure, self.trig, self.use, self.hints = list(requires), list(ensures), measure, trig, list(use), list(hints)
        self.assumed, self.export = assumed, export
        self._ax = self._tn = None

    def env(self, ex, st, fresh=True, tag='l_'):
        vs, env = [], {}
        for n, t in self.params:
            if t.k == 'char':
                v = ex.fresh(z3.IntSort(), n) if fresh else z3.Const(tag + n, z3.IntSort())
                vs.append(v); env[n] = Sym(STR, STRT.unit(v)); continue
            v = ex.fresh(sort(t), n) if fresh else z3.Const(tag + n, sort(t))
            vs.append(v)
            env[n] = ex.alloc(st, ex.from_term(t, v)) if t.k in ('list', 'set', 'dict') else ex.unpack(v, t, st)
        return vs, env

    def formula(self, ctx, tag='l_', extra=None):
        ex = Engine(ctx); ex.spec = 1
        st = State()
        fid = ex.newframe(None, None, '<spec>')
        vs, env = self.env(ex, st, False, tag)
        st.envs[fid] = env
        mark = len(ex.log)
        F = lambda s: ex.cond(ast.parse(s, mode='eval').body, st, fid)
        pre = [F(r) for r in self.requires]
        if extra is not None: pre.append(extra(ex, st, fid))
        post = [F(r) for r in self.ensures]
        sub = ex.generaliser(vs, ex.log[mark:])
        facts = [sub(f) for f in st.facts()]
        body = And(*(facts + [Implies(And(*pre) if pre else TRUE, And(*post))]))
        body = Implies(sub(And(*pre)) if pre else TRUE, sub(And(*post)))
        if facts: body = And(And(*facts), body)
        ps = None
        if self.trig:
            ps = []
            for t in self.trig:
                es = ast.parse(t, mode='eval').body
                parts = es.elts if isinstance(es, ast.Tuple) else [es]
                tm = [ex.term(ex.ev(p, st, fid), st) for p in parts]
                ps.append(z3.MultiPattern(*tm) if len(tm) > 1 else tm[0])
        return ex.forall(vs, body, ps)

    def trignames(self):
        if self._tn is None:
            from . import theory
            q = self._ax[0]
            self._tn = theory.symbols([q.pattern(i).arg(j) for i in range(q.num_patterns()) for j in range(q.pattern(i).num_args())])[0]
        return self._tn

    def axiom(self, ctx):
        if self._ax is None:
            a = self.formula(ctx)
            # the same statement over the terms that definitions unfold to
            for sf in ctx.specfns.values(): sf.defining = True
            try: b = self.formula(ctx)
            finally:
                for sf in ctx.specfns.values(): sf.defining = False
            self._ax = [a] if a.eq(b) else [a, b]
        return self._ax

    def obligations(self, ctx):
        ex = Engine(ctx)
        ex.cur = ['lemma ' + self.name]
        st = State()
        fid = ex.newframe(None, None, '<spec>')
        vs, env = self.env(ex, st)
        st.envs[fid] = env
        ctx.nolemma = self.name
        for r in self.requires: st.assume(ex.spec_formula(r, st, fid, {}))
        if self.measure:
            m0 = ex.spec_term(self.measure, st, fid, {})
            # the induction hypothesis speaks about the terms the definitions unfold to
            for sf in ctx.specfns.values(): sf.defining = True
            ih = self.formula(ctx, 'h_', lambda e2, s2, f2: And(0 <= e2.term(e2.ev(ast.parse(self.measure, mode='eval').body, s2, f2), s2),
                                                              e2.term(e2.ev(ast.parse(self.measure, mode='eval').body, s2, f2), s2) < m0))
            for sf in ctx.specfns.values(): sf.defining = False
            st.assume(ih)
        for h in self.hints: 
            # a hint mentions terms: its truth is checked, then used
            f = ex.spec_formula(h, st, fid, {})
            ex.oblig(st, f, 'lemma %s: step %s' % (self.name, h))
            st.assume(f)
        for r in self.ensures:
            s2 = st.copy()
            ex.oblig(s2, ex.spec_formula(r, s2, fid, {}), 'lemma %s: %s' % (self.name, r))
        return ex.obligs


class Context:
    def __init__(self):
        self.contracts, self.classes, self.loops, self.specfns, self.specconsts = {}, {}, {}, {}, {}
        self.specrefs, self.hints, self.externs, self.regexfns = {}, {}, {}, {}
        self.openhook, self.opaque_regex = None, False
        self.ghosts, self.jsonload = {}, None     # name -> type or builder: state outside the program (files)
        self.modvars = {}                         # 'module:name' -> ghost: a module variable of which any value is considered
        self.lemmas = []
        self.comps = {}              # key -> (number of comprehensions, {index: [Loop per generator]})
        self.rawaxioms = []          # (set of names, [axioms], note)
        self.verify_keys = []
        self.nolemma = None
        try:
            self.base = json.load(open(BASE))
        except Exception:
            self.base = {}

    def contract(self, key): return self.contracts.get(key)

    def add(self, c):
        self.contracts[c.key] = c
        if not c.assumed: self.verify_keys.append(c.key)
        return c

    def cls(self, key, fields, inv=()): self.classes[key] = ClassSpec(key, fields, inv)
    def fn(self, name, params, ret, body=None, axioms=None, fold=False, hidden=False):
        self.specfns[name] = SpecFn(name, params, ret, body, axioms, fold, hidden)
        return self.specfns[name]
    def lemma(self, *a, **k):
        l = Lemma(*a, **k); self.lemmas.append(l); return l


class SpecMixin:
    # -- evaluation of specifications -----------------------------------------------------
    def fnnames(self, fid):
        key = self.frames[fid][2]; fn = self.frames[fid][3]
        base = self.ctx.base.get(key)
        if base is None or fn is None: return {}
        cur = locals_of(fn)
        gone, new = [x for x in base if x not in cur], [x for x in cur if x not in base]
        if len(gone) == len(new): return dict(zip(gone, new))
        m = {}
        for op, a, b, x, y in difflib.SequenceMatcher(None, base, cur, False).get_opcodes():
            if op == 'replace' and b - a == y - x: m.update((p, q) for p, q in zip(base[a:b], cur[x:y]) if p in gone and q in new)
        return m

    def spec_eval(self, src, st, fid, ghosts, fn):
        g = self.newframe(self.frames[fid][0], fid, '<ghost>')
        st.envs[g] = dict(ghosts)
        f = fid
        while f is not None and self.frames[f][3] is None and self.frames[f][1] is not None: f = self.frames[f][1]
        saved = self.namemap
        self.namemap = self.fnnames(f)
        self.spec += 1
        try:
            return fn(ast.parse(src.strip(), mode='eval').body, g)
        finally:
            self.spec -= 1
            self.namemap = saved
            st.envs.pop(g, None)

    def spec_formula(self, src, st, fid, ghosts):
        if not isinstance(src, str): return src(self, st, fid, ghosts)
        try:
            return self.spec_eval(src, st, fid, ghosts, lambda e, g: self.cond(e, st, g))
        except Unsupported as x:
            y = Unsupported('in specification %r: %s' % (src, x))
            y.illtyped = getattr(x, 'illtyped', False)
            raise y

    def spec_term(self, src, st, fid, ghosts):
        return self.spec_eval(src, st, fid, ghosts, lambda e, g: self.term(self.ev(e, st, g), st))

    def term(self, v, st):
        return self.pack(v, self.typeof(v, st), st)

    # -- specification operators -------------------------------------------------------------
    def quant(self, e, st, fid, univ):
        lam = e.args[0]
        types, trig = {}, None
        for k in e.keywords:
            if k.arg == 'trig': trig = k.value
            else: types[k.arg] = ty(k.value.value)
        cf = self.newframe(self.frames[fid][0], fid, '<ghost>')
        vs, env = [], {}
        s2 = st.copy()
        for a in lam.args.args:
            t = types.get(a.arg, INT)
            if t.k == 'char':
                v = self.boundv(z3.IntSort(), a.arg)
                env[a.arg] = Sym(STR, STRT.unit(v))
            else:
                v = self.boundv(sort(t), a.arg)
                env[a.arg] = self.alloc(s2, self.from_term(t, v)) if t.k in ('list', 'set', 'dict') else self.unpack(v, t, s2)
            vs.append(v)
        s2.envs[cf] = env
        mark, base = len(self.log), len(s2.pc)
        body = self.cond(lam.body, s2, cf)
        ps = None
        if trig is not None:
            ps = []
            for t in (trig.elts if isinstance(trig, ast.List) else [trig]):
                parts = t.elts if isinstance(t, ast.Tuple) else [t]
                tm = []
                for p in parts:
                    v = self.ev(p, s2, cf)
                    x = self.term(v, s2)
                    if th.is_unit(x): x = x.arg(0)
                    tm.append(x)
                ps.append(z3.MultiPattern(*tm) if len(tm) > 1 else tm[0])
        fresh = self.log[mark:]
        facts = [f for _, f in s2.pc[base:]]
        sub = self.generaliser(vs, fresh)
        body = zb(sub(body))
        facts = [sub(f) for f in facts]
        for f in facts:
            if self._mentions_any(f, vs): st.assume(self.forall(vs, f))
            else: st.assume(f)
        # enumerations created inside are per-state facts and stay visible
        if univ: return self.mkbool(self.forall(vs, body, ps))
        if z3.is_true(body) or z3.is_false(body): return self.mkbool(body)
        ps = ps if ps is not None else self.pats([body], vs)
        return self.mkbool(z3.Exists(vs, body, patterns=ps) if ps else z3.Exists(vs, body))

    def sp_forall(self, e, st, fid): return self.quant(e, st, fid, True)
    def sp_exists(self, e, st, fid):
        wit = [k.value for k in e.keywords if k.arg == 'wit']
        if not wit: return self.quant(e, st, fid, False)
        # exists(lambda x: P(x), wit=w) is P(w) or exists(lambda x: P(x)): the same statement with a candidate named
        e2 = ast.Call(func=e.func, args=e.args, keywords=[k for k in e.keywords if k.arg != 'wit'])
        ws = wit[0].elts if isinstance(wit[0], ast.Tuple) else [wit[0]]
        cf = self.newframe(self.frames[fid][0], fid, '<ghost>')
        try:
            st.envs[cf] = {a.arg: self.ev(w, st, fid) for a, w in zip(e.args[0].args.args, ws)}
            p = self.cond(e.args[0].body, st, cf)
        finally:
            st.envs.pop(cf, None)
        return self.mkbool(Or(p, zb(self.cond(e2, st, fid))))
    def sp_implies(self, e, st, fid):
        a = self.cond(e.args[0], st, fid)
        if z3.is_false(simp(a) if not z3.is_quantifier(a) else a): return True
        try:
            b = self.cond(e.args[1], st, fid)
        except Unsupported as x:
            # the consequent makes no sense on this path (a value of another type): it counts as false when
            # it is to be proved, as true when it is assumed
            if self.assuming or not getattr(x, 'illtyped', False): raise
            b = FALSE
        return self.mkbool(Implies(a, b))
    def sp_iff(self, e, st, fid): return self.mkbool(self.cond(e.args[0], st, fid) == self.cond(e.args[1], st, fid))
    def sp_ite(self, e, st, fid):
        c = self.cond(e.args[0], st, fid)
        return self.mergev([c, Not(c)], [self.ev(e.args[1], st, fid), self.ev(e.args[2], st, fid)], st)

    def sp_let(self, e, st, fid):
        lam = e.args[0]
        cf = self.newframe(self.frames[fid][0], fid, '<ghost>')
        env = {a.arg: self.ev(x, st, fid) for a, x in zip(lam.args.args, e.args[1:])}
        st.envs[cf] = env
        v = self.ev(lam.body, st, cf)
        st.envs.pop(cf, None)
        return v

    def sp_old(self, e, st, fid):
        ent = self.entry
        if ent is None: raise Unsupported('old outside a function', e)
        s2 = State(st.pc, {**st.envs}, {**st.heap, **ent.heap})
        if self.entry_fid is not None and self.entry_fid in ent.envs: s2.envs[self.entry_fid] = ent.envs[self.entry_fid]
        s2.heap = dict(ent.heap)
        for c, h in st.heap.items(): s2.heap.setdefault(c, h)
        # a parameter has its value on entry, even where the function has rebound it
        f, own = fid, set()
        while f is not None and f != self.top_fid:
            own |= set(st.envs.get(f, {}))
            f = self.frames[f][1]
        if f is not None and self.entry_fid in ent.envs:
            g = self.newframe(self.frames[fid][0], fid, '<ghost>')
            s2.envs[g] = {n: x for n, x in ent.envs[self.entry_fid].items() if n not in own}
            fid = g
        v = self.ev(e.args[0], s2, fid)
        return self.freeze(v, s2, st)

    def sp_pre(self, e, st, fid):
        """value of an expression when the loop was entered"""
        pre = self.lookup('$pre' + ('_' + e.args[1].value if len(e.args) > 1 else ''), st, fid)
        s2 = State(st.pc, {**st.envs}, dict(pre.heap))
        for f, env in pre.envs.items():
            if self.frames[f][3] is not None or self.frames[f][2] == '<comp>': s2.envs[f] = env
        for c, h in st.heap.items(): s2.heap.setdefault(c, h)
        return self.freeze(self.ev(e.args[0], s2, fid), s2, st)

    def freeze(self, v, s2, st):
        if self.isref(v):
            c = self.content(v, s2)
            if isinstance(c, CObj): raise Unsupported('old(object)')
            if isinstance(c, CPy): c = CPy([self.freeze(x, s2, st) for x in c.items])
            return self.alloc(st, c)
        if isinstance(v, Tup): return Tup([self.freeze(x, s2, st) for x in v.items], v.nt)
        return v

    def sp__it(self, e, st, fid):
        it = self.lookup('$it' + ('_' + e.args[1].value if len(e.args) > 1 else ''), st, fid)
        sv, self.cst = self.cst, st
        v = it.get(self.num(self.ev(e.args[0], st, fid), st)[1])
        self.cst = sv
        return v

    def sp__key(self, e, st, fid):
        """the key a loop over a mapping has at position q, whether it runs over the keys or the items"""
        v = self.sp__it(e, st, fid)
        if isinstance(v, Tup): return v.items[0]
        if isinstance(v, Sym) and v.t.k not in ('str', 'int', 'real', 'bool'): raise Unsupported('the loop does not run over keys or items')
        return v

    def sp__idx(self, e, st, fid):
        it = self.lookup('$it' + ('_' + e.args[1].value if len(e.args) > 1 else ''), st, fid)
        ks, kidx, S, c = it.enum
        kt = c.kt if isinstance(c, CDict) else c.t
        return Sym(INT, kidx(self.pack(self.ev(e.args[0], st, fid), kt, st)))

    def sp_occ(self, e, st, fid):
        """occ(list, x, n): occurrences of x among the first n elements"""
        l = self.ev(e.args[0], st, fid)
        c = self.tolist(self.content(l, st), st) if self.isref(l) else None
        x = self.ev(e.args[1], st, fid)
        if c is None and self.isstr(l):
            n = self.num(self.ev(e.args[2], st, fid), st)[1]
            xx = self.strt(x, st)
            return Sym(INT, occf(z3.IntSort())(self.strt(l, st), xx.arg(0), n))
        if c.t.k == 'unk': return 0
        n = self.num(self.ev(e.args[2], st, fid), st)[1]
        return Sym(INT, occf(sort(c.t))(c.x, self.pack(x, c.t, st), n))

    def sp_code(self, e, st, fid):
        """code point of a one-character string"""
        x = self.strt(self.ev(e.args[0], st, fid), st)
        return Sym(INT, x.arg(0) if th.is_unit(x) else STRT.at(x, 0))

    def sp_isws(self, e, st, fid):
        from .expr import isws
        x = self.strt(self.ev(e.args[0], st, fid), st)
        return Sym(BOOL, isws(x.arg(0) if th.is_unit(x) else STRT.at(x, 0)))

    def sp_isnone(self, e, st, fid): return self.mkbool(self.eq(self.ev(e.args[0], st, fid), None, st))
    def sp_some(self, e, st, fid):
        v = self.ev(e.args[0], st, fid)
        if isinstance(v, Sym) and v.t.k == 'opt':
            return self.unpack(sort(v.t).accessor(1, 0)(v.x), v.t.a[0], st)
        if isinstance(v, Union): return self.optval(v, st)
        return v

    def sp_sumn(self, e, st, fid):
        """sum of the first n numbers of a list"""
        from .expr import ssum_i, ssum_r
        l = self.ev(e.args[0], st, fid)
        t = self.typeof(l, st).a[0]
        return Sym(t, (ssum_i if t.k == 'int' else ssum_r)(self.pack(l, LIST(t), st), self.num(self.ev(e.args[1], st, fid), st)[1]))

    def sp_joinl(self, e, st, fid):
        """concatenation of the first n strings of a list"""
        from .expr import joinl
        l = self.ev(e.args[0], st, fid)
        return Sym(STR, joinl(self.pack(l, LIST(STR), st), self.num(self.ev(e.args[1], st, fid), st)[1]))

    def sp_unchanged(self, e, st, fid):
        fs = []
        for a in e.args:
            x = self.ev(a, st, fid)
            y = self.sp_old(ast.Call(func=ast.Name(id='old', ctx=ast.Load()), args=[a], keywords=[]), st, fid)
            fs.append(self.eq(x, y, st))
        return self.mkbool(And(*fs) if len(fs) > 1 else fs[0])

    # -- values of contract types -----------------------------------------------------------
    def make(self, t, st, hint='p', inv=True):
        if callable(t) and not isinstance(t, Ty): return t(self, st)
        if t.k == 'obj':
            key = t.a[0]
            cs = self.ctx.classes[key]
            cls = loader.resolve(key)
            if cls is None: raise Unsupported('class %s not found' % key)
            r = self.alloc(st, CObj(cls, {}))
            f = {n: self.make(ft, st, n) for n, ft in cs.fields.items()}
            st.heap[r.c] = CObj(cls, f)
            if inv: self.assume_classinv(cs, r, st)
            return r
        if t.k == 'ddict':
            d = self.fresh_of(DICT(t.a[0], t.a[1]), st, hint)
            c = self.content(d, st)
            st.heap[d.c] = CDict(c.kt, c.vt, self.fresh(z3.ArraySort(sort(c.kt), z3.BoolSort()), hint), self.fresh(z3.ArraySort(sort(c.kt), sort(c.vt)), hint), Bi(t.a[2]))
            return d
        if t.k == 'dict':
            d = self.fresh_of(t, st, hint)
            st.heap[d.c] = CDict(t.a[0], t.a[1], self.fresh(z3.ArraySort(sort(t.a[0]), z3.BoolSort()), hint), self.fresh(z3.ArraySort(sort(t.a[0]), sort(t.a[1])), hint))
            return d
        if t.k == 'none': return None
        return self.fresh_of(t, st, hint)

    def assume_classinv(self, cs, r, st):
        fid = self.newframe(None, None, '<class>')
        st.envs[fid] = {'self': r}
        for i in cs.inv: st.assume(self.spec_formula(i, st, fid, {}))
        st.envs.pop(fid, None)

    def classinv(self, cs, r, st):
        fid = self.newframe(None, None, '<class>')
        st.envs[fid] = {'self': r}
        out = [(i, self.spec_formula(i, st, fid, {})) for i in cs.inv]
        st.envs.pop(fid, None)
        return out

    # -- a call through a contract ------------------------------------------------------------
    def apply_contract(self, con, fn, args, kw, st, node, clo=None):
        self.usedc.add(con.key)
        env0 = self.bind(fn.node, args, kw, clo.defaults if clo else self.fn_defaults(fn, st), st, node)
        cur = [a.arg for a in fn.node.args.args]
        env = {}
        for i, (n, t) in enumerate(con.params):
            if i >= len(cur): raise Unsupported('contract of %s: parameters changed' % con.key, node)
            env[n] = env0[cur[i]]
        for n, t in con.captures:
            env[n] = self.lookup(n, st, clo.fid, node)
        fid = self.newframe(fn.mod, None, '<contract>')
        st.envs[fid] = env
        lab = 'precondition of %s' % con.key
        new = None
        if con.key.endswith('.__init__'):
            # the object under construction: its fields get their types here
            new = con.params[0][0]
            if not con.owns: raise Unsupported('construction through %s' % con.key, node)
            o = env[new]
            cs = self.ctx.classes[con.params[0][1].a[0]]
            c = self.content(o, st)
            if c.fields: raise Unsupported('repeated construction', node)
            self.setcontent(o, CObj(c.cls, {n: self.make(ft, st, n) for n, ft in cs.fields.items()}), st)
        if not self.spec:
            for r in con.requires:
                f = self.spec_formula(r, st, fid, {})
                self.oblig(st, f, '%s: %s' % (lab, r), node)
                st.assume(f)
            for (n, t) in con.params:
                if isinstance(t, Ty) and t.k == 'obj' and not con.noinv and self.isref(env[n]) and n != new:
                    for i, f in self.classinv(self.ctx.classes[t.a[0]], env[n], st):
                        self.oblig(st, f, '%s: invariant %s' % (lab, i), node)
            for exc, c in con.raises.items():
                f = self.spec_formula(c, st, fid, {})
                self.require(st, Not(f), exc, node)
        sv_e, sv_f = self.entry, self.entry_fid
        self.entry, self.entry_fid = st.copy(), fid
        try:
            if con.pure:
                xs = []
                # (a parameter given by a builder is one constant object)
                ps = [(n, t) for n, t in con.params if isinstance(t, Ty)]
                for n, t in ps:
                    xs.append(self.pack(env[n], t, st))
                f = z3.Function('fn_' + con.key, *[sort(t) for _, t in ps] + [sort(con.returns)])
                r = self.unpack(f(*xs), con.returns, st)
            else:
                for m in con.modifies:
                    self.havoc_place(m, st, fid)
                rt = con.returns
                if callable(rt): rt = ty(rt(env))
                r = env[rt[1:]] if isinstance(rt, str) else self.make(rt, st, 'r') if rt is not None else None
            env2 = dict(env); env2['result'] = r
            st.envs[fid] = env2
            if self.spec and con.pure:
                pre = [self.spec_formula(q, st, fid, {}) for q in con.requires]
                for q in con.ensures:
                    st.assume(Implies(And(*pre), self.spec_formula(q, st, fid, {})) if pre else self.spec_formula(q, st, fid, {}))
            else:
                sv_a, self.assuming = self.assuming, True
                for q in con.ensures: st.assume(self.spec_formula(q, st, fid, {}))
                self.assuming = sv_a
                for (n, t) in con.params:
                    if isinstance(t, Ty) and t.k == 'obj' and not con.noinv and self.isref(env[n]) and (con.modifies or n == new):
                        for i, f in self.classinv(self.ctx.classes[t.a[0]], env[n], st): st.assume(f)
        finally:
            self.entry, self.entry_fid = sv_e, sv_f
            st.envs.pop(fid, None)
        return r

    def havoc_place(self, m, st, fid):
        new = m.startswith('new ')
        if new: m = m[4:]
        e = ast.parse(m, mode='eval').body
        v = self.ev(e, st, fid)
        if new and self.isref(v):
            v = self.alloc(st, self.content(v, st))
            o = self.ev(e.value, st, fid)
            c = self.content(o, st)
            self.setcontent(o, CObj(c.cls, {**c.fields, e.attr: v}), st)
        if self.isref(v) and not isinstance(self.content(v, st), CObj):
            c = self.content(v, st)
            t = self.ctype(c, st)
            if 'unk' in repr(t) and isinstance(e, ast.Attribute):
                # an empty container whose types are only known from the class
                oc = self.content(self.ev(e.value, st, fid), st)
                cs = self.ctx.classes.get('%s:%s' % (oc.cls.mod.name, oc.cls.name))
                if cs is not None: t = cs.fields[e.attr]
            n = self.from_term(t, self.fresh(sort(t), 'm'))
            if isinstance(n, CDict): n = CDict(n.kt, n.vt, self.fresh(z3.ArraySort(sort(n.kt), z3.BoolSort()), 'md'), self.fresh(z3.ArraySort(sort(n.kt), sort(n.vt)), 'mv'), c.default)
            self.setcontent(v, n, st)
            return
        if isinstance(e, ast.Attribute):
            o = self.ev(e.value, st, fid)
            c = self.content(o, st)
            f = dict(c.fields)
            cs = self.ctx.classes.get('%s:%s' % (c.cls.mod.name, c.cls.name))
            if new and self.isref(v) and cs is not None and isinstance(cs.fields.get(e.attr), Ty) and cs.fields[e.attr].k == 'obj':
                f[e.attr] = self.make(cs.fields[e.attr], st, e.attr, inv=False)
            else: f[e.attr] = self.fresh_of(self.typeof(v, st), st, e.attr)
            self.setcontent(o, CObj(c.cls, f), st)
            return
        raise Unsupported('modifies ' + m)

    # -- verification of one function -----------------------------------------------------------
    def verify(self, con):
        if con.alts:
            # a parameter that may have one of several types: each is verified
            import itertools
            ks, vac = list(con.alts), []
            for c in itertools.product(*[con.alts[k] for k in ks]):
                self.verify1(con, {}, dict(zip(ks, c)))
                vac.append(self.vac)
            self.vac = [vac[0][0]] + [x for v in vac for x in v[1:]]
            return self.obligs
        if not con.split: return self.verify1(con, {})
        # case split over boolean parameters: every combination is verified
        import itertools
        vac = []
        for vs in itertools.product(*[(False, True)] * len(con.split)):
            self.verify1(con, dict(zip(con.split, vs)))
            vac.append(self.vac)
        self.vac = [vac[0][0]] + [x for v in vac for x in v[1:]]
        return self.obligs

    def verify1(self, con, fixed, types={}):
        fn = loader.resolve(con.key)
        if not isinstance(fn, FnRef): raise Unsupported('%s not found in the current source' % con.key)
        self.cur, self.paths, self.fixed = [con.name], con.paths, fixed
        self.frozen = set()
        st = State()
        cur = [a.arg for a in fn.node.args.args]
        if len(cur) < len(con.params): raise Unsupported('%s: parameters changed' % con.key)
        self.gfid = self.newframe(None, None, '<files>')
        self.ghosts = self.ctx.ghosts
        st.envs[self.gfid] = {n: self.make(ty(t) if isinstance(t, str) else t, st, n) for n, t in self.ctx.ghosts.items()}
        env, cenv = {}, {}
        kind = getattr(fn, 'kind', None)
        for i, (n, t) in enumerate(con.params):
            t = types.get(n, t)
            v = self.make(t, st, n, inv=not con.noinv and not (n == 'self' and fn.qual.endswith('__init__')))
            if n == 'self' and fn.qual.endswith('__init__'):
                v = self.alloc(st, CObj(loader.resolve(t.a[0]), {}))
            if n in fixed: v = fixed[n]
            env[cur[i]] = v; cenv[n] = v
        if len(cur) > len(con.params):
            d = fn.node.args.defaults
            dn = cur[len(cur) - len(d):]
            dv = self.fn_defaults(fn, st)
            for i in range(len(con.params), len(cur)):
                if cur[i] not in dn: raise Unsupported('%s: new parameter %s' % (con.key, cur[i]))
                env[cur[i]] = dv[dn.index(cur[i])]
        pf = None
        if con.captures:
            pf = self.newframe(fn.mod, None, '<captures>')
            st.envs[pf] = {n: self.make(t, st, n) for n, t in con.captures}
            for n, v in st.envs[pf].items(): cenv.setdefault(n, v)
        cf = self.newframe(fn.mod, None, '<contract>')
        st.envs[cf] = cenv
        for r in con.requires: st.assume(self.spec_formula(r, st, cf, {}))
        self.entry, self.entry_fid = st.copy(), cf
        self.vac = [('entry', st.facts())]
        free, freex = self.places(con, st, cf), set()
        if fn.qual.endswith('__init__'):
            c0 = cenv[con.params[0][0]].c
            free.add((c0, '*')); freex.add((c0, '*'))
        fid = self.top_fid = self.newframe(fn.mod, pf, con.key, fn.node)
        st.envs[fid] = dict(env)
        isgen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(fn.node))
        if isgen: st.envs[fid]['$yield'] = self.alloc(st, CPy(()))
        self.stack.append(con.key)
        ls = self.ctx.loops.get(con.key)
        if ls and not loops_of(fn.node): self.unmatched.append('%s: 0 loops, %d annotations' % (con.key, len(ls)))
        self.after, self.topbody = con.after, fn.node.body
        outs = self.block(fn.node.body, st, fid)
        self.after = {}
        self.stack.pop()
        nret = 0
        for k, s, v in outs:
            if k == 'raise':
                if v in con.raises:
                    self.frame(con, s, freex, 'frame on %s' % v)
                    f = self.spec_formula(con.raises[v], self.old_state(s), cf, {})
                    self.oblig(s, f, 'raises %s only when %s' % (v, con.raises[v]))
                    s.envs[cf] = cenv
                    for q in con.ensures_exc:
                        s2 = s.copy()
                        self.oblig(s2, self.spec_formula(q, s2, cf, {}), 'on %s: %s' % (v, q))
                else:
                    self.oblig(s, FALSE, 'never raises %s' % v)
                continue
            if isgen: v = s.envs[fid]['$yield']
            elif k == 'normal': v = None
            nret += 1
            rt = con.returns
            if callable(rt): rt = ty(rt(cenv))
            if isinstance(rt, Ty):
                self.coerce(v, rt, s)
                self.fits(v, rt, s, con)
            if isinstance(rt, str) and not (isinstance(v, Ref) and v.c == cenv[rt[1:]].c):
                self.oblig(s, FALSE, 'returns the parameter %s' % rt[1:])
            for n, t in con.params:
                if isinstance(t, Ty) and t.k == 'obj' and self.isref(cenv[n]):
                    for a, u in self.ctx.classes[t.a[0]].fields.items():
                        x = self.content(cenv[n], s).fields.get(a)
                        if isinstance(u, Ty) and x is not None: self.coerce(x, u, s)
            self.check_shares(con, s, v)
            self.vac.append(('return', s.facts()))
            s.envs[cf] = dict(cenv); s.envs[cf]['result'] = v
            for exc, c in con.raises.items():
                s2 = s.copy()
                f = self.spec_formula(c, self.old_state(s2), cf, {})
                self.oblig(s2, Not(f), 'raises %s when %s' % (exc, c))
            self.frame(con, s, free, 'frame')
            for q in con.ensures:
                s2 = s.copy()
                f = self.spec_formula(q, s2, cf, {})
                self.oblig(s2, f, 'postcondition: %s' % (q if isinstance(q, str) else q.__name__))
                if con.chain:
                    s2.assume(f)
                    s = s2
            for n, t in con.params:
                if isinstance(t, Ty) and t.k == 'obj' and not con.noinv and (n == 'self' or any(m.startswith(n) for m in con.modifies)):
                    s2 = s.copy()
                    for i, f in self.classinv(self.ctx.classes[t.a[0]], cenv[n], s2):
                        self.oblig(s2, f, 'class invariant: %s' % i)
        if nret == 0 and not con.raises: raise Unsupported('%s: no normal return' % con.key)
        return self.obligs

    def coerce(self, v, t, s):
        """an empty container of unknown element type gets the declared one"""
        if isinstance(v, Tup) and t.k == 'tup' and len(v.items) == len(t.a):
            for x, u in zip(v.items, t.a): self.coerce(x, u, s)
        elif isinstance(v, Ref) and t.k == 'dict':
            c = self.content(v, s)
            if isinstance(c, CDict) and c.kt.k == 'unk': self.retype_dict(v, t.a[0], t.a[1], s)

    def fits(self, v, t, s, con):
        """the value returned is of the type the callers are told"""
        if t.k == 'obj' or isinstance(v, (Ref, View)) and isinstance(self.content(v, s), CObj): return
        u = self.typeof(v, s)
        if unify(u, t) != t: raise Unsupported('%s returns %s, not %s' % (con.key, u, t))

    def check_shares(self, con, s, v):
        """callers treat results and assigned fields as containers of their own"""
        if con.owns and self.sharedtypes: raise Unsupported('%s may share elements of its containers' % con.key)
        if con.shares or (con.key.endswith('__init__') and not con.owns): return
        def old(x):
            return isinstance(x, View) or (isinstance(x, Ref) and x.c in self.entry.heap and not isinstance(s.heap[x.c], CObj))
        if old(v): raise Unsupported('%s returns a container that it does not own' % con.key)
        for c, h in self.entry.heap.items():
            w = s.heap.get(c)
            if isinstance(h, CObj) and isinstance(w, CObj):
                for n, x in w.fields.items():
                    if old(x) and not self.same(x, h.fields.get(n)): raise Unsupported('%s keeps a container that it does not own' % con.key)

    def places(self, con, st, cf):
        """cells and fields a function may change"""
        free = set()
        for m in con.modifies:
            new = m.startswith('new ')
            e = ast.parse(m[4:] if new else m, mode='eval').body
            v = self.ev(e, st, cf)
            if self.isref(v) and not isinstance(self.content(v, st), CObj):
                w = v
                while isinstance(w, View): w = w.base
                free.add((w.c, None))
            if isinstance(e, ast.Attribute) and (new or not self.isref(v)):
                free.add((self.ev(e.value, st, cf).c, e.attr))
        return free

    def frame(self, con, s, free, lab):
        for c, h in self.entry.heap.items():
            w = s.heap.get(c)
            if w is None or w is h or (c, None) in free or (c, '*') in free or self.samec(h, w): continue
            if isinstance(h, CObj) and isinstance(w, CObj):
                for n in set(h.fields) | set(w.fields):
                    a, b = h.fields.get(n), w.fields.get(n)
                    if (c, n) in free or self.same(a, b): continue
                    if self.isref(a) or self.isref(b) or n not in h.fields or n not in w.fields: f = FALSE
                    else: f = self.eq(a, b, s)
                    self.oblig(s, f, '%s: field %s of %s is not changed' % (lab, n, getattr(h.cls, 'key', h.cls)))
                continue
            s2 = s.copy()
            try:
                t = unify(self.ctype(h, self.entry), self.ctype(w, s2))
                s2.heap[c] = h
                x = self.pack_content(h, t, s2)
                f = x == self.pack_content(w, t, s2)
            except Unsupported: f = FALSE
            self.oblig(s2, f, '%s: only the declared containers change' % lab)

    def old_state(self, s):
        s2 = State(s.pc, {**s.envs, **{self.entry_fid: self.entry.envs[self.entry_fid]}}, {**s.heap, **self.entry.heap})
        return s2


class Engine(SpecMixin, StmtMixin, CallMixin, ExprMixin, Ex):
    def __init__(self, ctx):
        Ex.__init__(self, ctx)
        self.stack, self.namemap, self.specenv, self.cst, self.defs = [], None, False, None, {}
        self.entry_fid = self.top_fid = None
        self.assuming, self.paths = False, False
        self.ghosts, self.gfid = {}, None
        self.vac = []
        self.nfresh = Engine._n * 1000000
        Engine._n += 1
    _n = 1
