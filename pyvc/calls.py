"""Calls, built-ins, methods, comprehensions."""
import ast, fractions, re
import z3
from .expr import *
from .expr import mkcat, occf
from .exec import (Sym, Tup, Ref, View, Union, Clo, Bound, BM, Bi, FunV, Lazy, UNINIT, CList, CPy, CDict, CSet,
                   CObj, State, It, simp, zb, zi, conc_int, unify, UNK, And, Or, Not, If, Implies, TRUE, FALSE, Unsupported)
try:
    import re._parser as sre_parse, re._constants as sre_c
except ImportError:
    import sre_parse, sre_constants as sre_c

MAXDEPTH = 14


class CallMixin:
    # -- calls -----------------------------------------------------------------------
    def ev_Call(self, e, st, fid):
        if isinstance(e.func, ast.Name) and (self.spec or self.specenv):
            m = getattr(self, 'sp_' + e.func.id, None)
            if m is not None and self.unshadowed(e.func.id, st, fid):
                return m(e, st, fid)
        if isinstance(e.func, ast.Name) and e.func.id == 'print':
            return None
        if isinstance(e.func, ast.Name) and e.func.id == 'super':
            raise Unsupported('super', e)
        f = self.ev(e.func, st, fid)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += self.static_items(self.ev(a.value, st, fid), st, a)
            else:
                args.append(self.ev(a, st, fid))
        kw = {}
        for k in e.keywords:
            if k.arg is None: raise Unsupported('**kwargs', e)
            kw[k.arg] = self.ev(k.value, st, fid)
        return self.call(f, args, kw, st, e)

    def unshadowed(self, n, st, fid):
        f = fid
        while f is not None:
            if n in st.envs.get(f, {}): return False
            f = self.frames[f][1]
        return True

    def call(self, f, args, kw, st, node):
        if isinstance(f, Union):
            f = self.optval(f, st, node)
            if isinstance(f, Union):
                alts = f.alts
                # choose per alternative
                base = len(st.pc)
                outs = []
                for g, x in alts:
                    s2 = st.copy(); s2.assume(g, True)
                    outs.append((s2, self.call(x, args, kw, s2, node)))
                new, v = self.merge(base, outs)
                st.become(new)
                return v
        if isinstance(f, FnRef):
            return self.callfn(f, args, kw, st, node)
        if isinstance(f, Bound):
            return self.callfn(f.fn, [f.obj] + list(args), kw, st, node)
        if isinstance(f, Clo):
            return self.inline_clo(f, args, kw, st, node)
        if isinstance(f, BM):
            return self.method(f.recv, f.name, args, kw, st, node)
        if isinstance(f, Bi):
            if f.name.startswith('spec:'):
                return self.ctx.specfns[f.name[5:]].apply(self, args, st)
            m = getattr(self, 'bi_' + f.name, None)
            if m is None:
                if f.name.endswith('Error') or f.name in ('Exception', 'StopIteration', 'NotImplemented'):
                    return Bi(f.name)
                raise Unsupported('builtin ' + f.name, node)
            return m(args, kw, st, node)
        if isinstance(f, ClsRef):
            return self.construct(f, args, kw, st, node)
        if isinstance(f, NT):
            items = list(args) + [kw[n] for n in f.fields[len(args):]]
            if len(items) != len(f.fields): raise Unsupported('namedtuple arity', node)
            return Tup(items, f)
        if isinstance(f, FunV):
            xs = [self.pack(a, t, st) for a, t in zip(args, f.t.a[:-1])]
            if len(xs) != len(f.t.a) - 1: raise Unsupported('arity', node)
            r = f.f(*xs)
            return self.unpack(r, f.t.a[-1], st)
        if isinstance(f, ExtRef):
            return self.callext(f, args, kw, st, node)
        if self.isref(f):
            c = self.content(f, st)
            if isinstance(c, CObj) and isinstance(c.cls, ClsRef):
                m = c.cls.find('__call__')
                if m: return self.callfn(m, [f] + list(args), kw, st, node)
        raise Unsupported('call of %s' % self.kind(f), node)

    def bind(self, node, args, kw, defaults, st, callnode):
        a = node.args
        if a.vararg or a.kwarg or a.posonlyargs: raise Unsupported('varargs', callnode)
        names = [x.arg for x in a.args]
        env = {}
        if len(args) > len(names): raise Unsupported('too many arguments', callnode)
        for n, v in zip(names, args): env[n] = v
        for n, v in kw.items():
            if n not in names and n not in [x.arg for x in a.kwonlyargs]: raise Unsupported('argument %s' % n, callnode)
            env[n] = v
        dn = names[len(names) - len(defaults):] if defaults else []
        for n, v in zip(dn, defaults):
            if n not in env: env[n] = v
        for n in names:
            if n not in env: raise Unsupported('missing argument %s' % n, callnode)
        return env

    def fn_defaults(self, fn, st):
        """default values: evaluated in the module (immutable in the functions under contract)"""
        fid = self.newframe(fn.mod, None, fn.qual)
        st.envs[fid] = {}
        return [self.ev(d, st, fid) for d in fn.node.args.defaults]

    def callfn(self, fn, args, kw, st, node):
        if fn.key in self.ctx.externs:
            return self.ctx.externs[fn.key](self, args, kw, st, node)
        con = self.ctx.contract(fn.key)
        if con is not None and not con.inline and not (self.spec and (not con.pure or fn.key in self.cur)):
            return self.apply_contract(con, fn, args, kw, st, node)
        if len(self.stack) >= MAXDEPTH or fn.key in self.stack:
            raise Unsupported('recursion without contract: %s' % fn.key, node)
        self.inlined.add(fn.key)
        env = self.bind(fn.node, args, kw, self.fn_defaults(fn, st), st, node)
        return self.run_body(fn.node, fn.mod, None, fn.key, env, st, node)

    def inline_clo(self, clo, args, kw, st, node):
        if clo.name != '<lambda>':
            key = clo.name
            con = self.ctx.contract(key)
            if con is not None and not con.inline and not (self.spec and (not con.pure or key in self.cur)):
                return self.apply_contract(con, FnRef(clo.mod, key.split(':')[1], clo.node), args, kw, st, node, clo)
        if len(self.stack) >= MAXDEPTH: raise Unsupported('call depth', node)
        env = self.bind(clo.node, args, kw, clo.defaults, st, node)
        if isinstance(clo.node, ast.Lambda):
            fid = self.newframe(clo.mod, clo.fid, '<lambda>')
            st.envs[fid] = env
            v = self.ev(clo.node.body, st, fid)
            st.envs.pop(fid, None)
            return v
        return self.run_body(clo.node, clo.mod, clo.fid, clo.name, env, st, node)

    def run_body(self, fnode, mod, parent, key, env, st, node):
        fid = self.newframe(mod, parent, key, fnode)
        base = len(st.pc)
        isgen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(fnode))
        st.envs[fid] = dict(env)
        if isgen:
            st.envs[fid]['$yield'] = self.alloc(st, CPy(()))
        self.stack.append(key)
        saved, self.namemap = self.namemap, None
        try:
            outs = self.block(fnode.body, st, fid)
        finally:
            self.stack.pop()
            self.namemap = saved
        rets = []
        for k, s, v in outs:
            if k == 'raise':
                if self.sinks: self.sinks[-1].append((s, v))
                elif not self.spec:
                    self.oblig(s, FALSE, 'no %s raised' % (v,), node)
                continue
            if k in ('break', 'continue'): raise Unsupported('stray ' + k, node)
            if isgen: v = s.envs[fid]['$yield']
            if not self.escapes(fnode): s.envs.pop(fid, None)
            rets.append((s, v if k == 'return' or isgen else None))
        if not rets:
            # no normal outcome
            dead = st.copy(); dead.assume(FALSE)
            st.become(dead)
            st.envs.pop(fid, None)
            return None
        new, v = self.merge(base, rets)
        st.become(new)
        return v

    def escapes(self, fnode):
        # closures may refer to the frame
        return any(isinstance(n, (ast.Lambda, ast.FunctionDef, ast.GeneratorExp, ast.ListComp, ast.SetComp, ast.DictComp)) for s in fnode.body for n in ast.walk(s))

    def construct(self, cls, args, kw, st, node):
        key = '%s:%s' % (cls.mod.name, cls.name)
        if key in self.ctx.externs:
            return self.ctx.externs[key](self, args, kw, st, node)
        r = self.alloc(st, CObj(cls, {}))
        init = cls.find('__init__')
        if init: self.callfn(init, [r] + list(args), kw, st, node)
        return r

    def callext(self, f, args, kw, st, node):
        n = f.name
        if n in self.ctx.externs: return self.ctx.externs[n](self, args, kw, st, node)
        if n in ('collections.defaultdict',):
            d = args[0] if args else None
            if len(args) > 1:
                src = self.bi_dict([args[1]], {}, st, node)
                c = self.content(src, st)
                self.setcontent(src, CDict(c.kt, c.vt, c.dom, c.val, d), st)
                return src
            return self.alloc(st, CDict(UNK, UNK, None, None, d))
        if n == 'collections.Counter':
            return self.counter(args[0], st, node)
        if n == 'collections.OrderedDict': return self.bi_dict(args, kw, st, node)
        if n in ('pprint.pprint', 'warnings.warn', 'sys.stdout.write', 'sys.stdout.flush'): return None
        if n == 're.compile': 
            if isinstance(args[0], str): return compile_(args[0], args[1:] + list(kw.values()), node)
        if n in ('os.path.dirname', 'os.path.abspath', 'os.path.basename'):
            return Sym(STR, z3.Function(n, STRT.sort, STRT.sort)(self.strt(args[0], st)))
        if n == 'os.path.exists':
            return Sym(BOOL, self.fresh(z3.BoolSort(), 'exists'))
        if n == 'os.makedirs': return None
        if n == 'json.dump' and 'DISK' in self.ghosts:
            st.envs[self.gfid]['DISK'] = args[0]
            return None
        if n == 'json.load' and 'DISK' in self.ghosts:
            return self.ctx.jsonload(self, st)
        if n == 'numpy.zeros':
            return self.matrix_zeros(args, st, node)
        if n in ('numpy.asarray', 'numpy.array') and len(args) == 1: return args[0]
        raise Unsupported('external call ' + n, node)

    # -- dense matrices: a map from written cells to values, zero elsewhere ----------------------
    def matrix_zeros(self, args, st, node):
        shp = self.static_items(args[0], st, node)
        if len(shp) != 2: raise Unsupported('zeros', node)
        K = TUP(INT, INT)
        cells = self.alloc(st, CDict(K, REAL, z3.K(sort(K), FALSE), z3.K(sort(K), z3.RealVal(0))))
        for d in shp: self.require(st, self.num(d, st)[1] >= 0, 'ValueError', node)
        return self.alloc(st, CObj('matrix', {'rows': shp[0], 'cols': shp[1], 'cells': cells}))

    def matrix_index(self, c, k, st, node):
        i, j = self.static_items(k, st, node)
        x, y = self.num(i, st, node)[1], self.num(j, st, node)[1]
        # negative indices count from the end in numpy: they are treated as errors
        self.require(st, And(0 <= x, x < self.num(c.fields['rows'], st)[1], 0 <= y, y < self.num(c.fields['cols'], st)[1]), 'IndexError', node)
        return Tup((i, j))

    def matrix_get(self, r, c, k, st, node):
        k = self.matrix_index(c, k, st, node)
        d = self.content(c.fields['cells'], st)
        kk = self.pack(k, d.kt, st)
        return Sym(REAL, If(z3.Select(d.dom, kk), z3.Select(d.val, kk), z3.RealVal(0)))

    def matrix_set(self, r, c, k, v, st, node):
        k = self.matrix_index(c, k, st, node)
        self.dict_set(c.fields['cells'], k, v, st, node)

    # -- iteration ------------------------------------------------------------------------------
    def iter_of(self, v, st, node=None):
        v = self.optval(v, st, node)
        if isinstance(v, Ext): return v.iter(self, st, node)
        if isinstance(v, Lazy): return v.it
        if isinstance(v, (set, frozenset)):
            v = sorted(v, key=repr) if False else v
            c = self.asset(v, st)
            r = self.alloc(st, c)
            return self.iter_of(r, st, node)
        if isinstance(v, (str, list, tuple)):
            vs = list(v)
            def getc(i, vs=vs):
                k = conc_int(zi(i))
                if k is not None: return vs[k]
                return self.select_const([(zi(i) == j, y) for j, y in enumerate(vs)], st)
            return It(len(vs), getc, v)
        if isinstance(v, dict):
            return self.iter_of(list(v), st, node)
        if isinstance(v, Tup):
            return self.iter_of(tuple(v.items), st, node)
        if isinstance(v, Sym) and v.t.k == 'str':
            x = v.x
            if th.is_unit(x): return It(1, lambda i: v, v)
            return It(STRT.len(x), lambda i: Sym(STR, STRT.unit(STRT.at(x, zi(i)))), v, trig=lambda i: STRT.at(x, zi(i)))
        if self.isref(v):
            c = self.content(v, st)
            if isinstance(c, CPy): return self.iter_of(tuple(c.items), st, node)
            if isinstance(c, CList):
                if c.t.k == 'unk': return It(0, lambda i: None, v)
                T = seqT(sort(c.t)); x = c.x
                def get(i):
                    return self.seq_elem(T, x, zi(i), c.t, self.cst or st, v)
                return It(T.len(x), get, v, trig=lambda i: T.at(x, zi(i)))
            if isinstance(c, (CDict, CSet)):
                kt = c.kt if isinstance(c, CDict) else c.t
                if kt.k == 'unk': return It(0, lambda i: None, v)
                ks, kidx, S = self.enum(c, st)
                return It(S.len(ks), lambda i: self.unpack(S.at(ks, zi(i)), kt, self.cst or st), v, kind='keys', enum=(ks, kidx, S, c), trig=lambda i: S.at(ks, zi(i)))
            if isinstance(c, CObj) and isinstance(c.cls, ClsRef):
                m = c.cls.find('__iter__')
                if m: return self.iter_of(self.call(Bound(v, m), [], {}, st, node), st, node)
            if isinstance(c, CObj) and c.cls == 'file':
                return self.iter_of(self.file_rest(v, st), st, node)
        raise Unsupported('iteration over %s' % self.kind(v), node)

    def tolistref(self, v, st, node=None):
        """a list with the elements of an iterable"""
        if isinstance(v, (list, tuple)): return self.alloc(st, CPy(v))
        if isinstance(v, Tup): return self.alloc(st, CPy(v.items))
        if self.isref(v):
            c = self.content(v, st)
            if isinstance(c, (CPy, CList)): return v
        it = self.iter_of(v, st, node)
        n = conc_int(zi(it.n))
        if n is not None:
            return self.alloc(st, CPy([it.get(i) for i in range(n)]))
        if it.kind == 'keys' and it.enum:
            ks, kidx, S, c = it.enum
            return self.alloc(st, CList(c.kt if isinstance(c, CDict) else c.t, ks))
        if it.kind == 'keys' and isinstance(it.seq, Ref):
            return self.tolistref(it.seq, st, node)
        i = z3.Int('i!l')
        i = self.fresh(z3.IntSort(), 'li')
        s2 = st.copy()
        sv, self.cst = self.cst, s2
        v0 = it.get(i)
        self.cst = sv
        t = self.typeof(v0, s2)
        x = self.pack(v0, t, s2)
        S = seqT(sort(t))
        r = self.fresh(S.sort, 'lst')
        j = self.boundv(z3.IntSort(), 'i')
        st.assume(S.len(r) == zi(it.n))
        ps = [S.at(r, j)]
        if it.trig is not None: ps.append(it.trig(j))
        st.assume(z3.ForAll([j], Implies(And(0 <= j, j < zi(it.n)), S.at(r, j) == z3.substitute(x, (i, j))), patterns=ps))
        return self.alloc(st, CList(t, r))

    # -- comprehensions ----------------------------------------------------------------------------
    def ev_ListComp(self, e, st, fid): return self.comp('list', [e.elt], e.generators, st, fid, e)
    def ev_GeneratorExp(self, e, st, fid): return self.comp('list', [e.elt], e.generators, st, fid, e)
    def ev_SetComp(self, e, st, fid): return self.comp('set', [e.elt], e.generators, st, fid, e)
    def ev_DictComp(self, e, st, fid): return self.comp('dict', [e.key, e.value], e.generators, st, fid, e)

    def comp(self, kind, elts, gens, st, fid, node):
        if not self.spec:
            sp = self.compspec(node, fid)
            if sp is not None: return self.comp_loops(kind, elts, gens, sp, st, fid, node)
        cf = self.newframe(self.frames[fid][0], fid, self.frames[fid][2])
        r = self.comp_static(kind, elts, gens, st, cf, node)
        if r is not None: return r
        st.envs[cf] = {}
        mark = len(self.log)
        s2 = st.copy()
        base = len(s2.pc)
        idx, ns, its, los = [], [], [], []
        conds = []
        saved, self.cst = self.cst, s2
        try:
            for g in gens:
                if g.is_async: raise Unsupported('async', node)
                src = self.ev(g.iter, s2, cf)
                it = self.iter_of(src, s2, node)
                i = self.fresh(z3.IntSort(), 'ix')
                # over a range the variable is the value itself, so that terms of the element can trigger the definition
                lo = it.lo if it.kind == 'range' and it.lo is not None and conc_int(it.lo) != 0 else None
                bnd = And(0 <= i, i < zi(it.n)) if lo is None else And(lo <= i, i < lo + zi(it.n))
                los.append(lo)
                if len(idx) == 0:
                    # facts of the first source hold outside the comprehension
                    for f in s2.pc[base:]: st.pc.append(f)
                    for c in s2.heap:
                        if st.heap.get(c) is not s2.heap[c]: st.heap[c] = s2.heap[c]
                    base = len(s2.pc)
                    mark = len(self.log) - 1
                s2.assume(bnd, True)
                idx.append(i); ns.append(zi(it.n)); its.append(it)
                self.assign(g.target, it.get(i) if lo is None else Sym(INT, i), s2, cf)
                cs = []
                for c in g.ifs:
                    f = self.cond(c, s2, cf)
                    s2.assume(f, True)
                    cs.append(f)
                conds.append(cs)
            vals = [self.ev(x, s2, cf) for x in elts]
            heap_before = {c: st.heap[c] for c in st.heap}
            ts = [self.typeof(v, s2) for v in vals]
            if any(t.k == 'unk' for t in ts):
                ts = [self.unkfix(t, node) for t in ts]
            for v in vals: self.stored(v, s2)
            xs = [self.pack(v, t, s2) for v, t in zip(vals, ts)]
        finally:
            self.cst = saved
        for c, h in heap_before.items():
            if s2.heap.get(c) is not h: raise Unsupported('comprehension with side effects', node)
        ixset = {x.get_id() for x in idx}
        fresh = [c for c in self.log[mark:] if not (z3.is_expr(c) and c.get_id() in ixset)]
        facts = [f for k, f in s2.pc[base:]]
        flatc = [c for cs in conds for c in cs]
        sub = self.generaliser(idx, fresh)
        xs = [sub(x) for x in xs]
        conds = [[sub(c) for c in cs] for cs in conds]
        ns = [sub(n) for n in ns]
        los = [sub(l) if l is not None else None for l in los]
        bounds = [And(0 <= i, i < n) if l is None else And(l <= i, i < l + n) for i, n, l in zip(idx, ns, los)]
        # facts without the guards themselves
        gids = set()
        facts = [sub(f) for f in facts]
        allc = [x for cs in conds for x in cs]
        hyp = {f.get_id() for f in bounds} | {c.get_id() for c in allc}
        facts = [f for f in facts if f.get_id() not in hyp and not z3.is_true(simp(f))]
        trigs = [it.trig(i) if it.trig is not None else None for it, i in zip(its, idx)]
        trigs = [sub(t) if t is not None else None for t in trigs]
        if facts:
            # each fact holds under the guards evaluated before it; conservatively under all bounds and conditions it may depend on
            full = And(*(bounds + allc)) if len(bounds + allc) > 1 else (bounds + allc)[0]
            body = Implies(full, And(*facts) if len(facts) > 1 else facts[0])
            ps = self.pats([body], idx)
            extra = [t for t in trigs if t is not None]
            if len(idx) == 1 and extra: ps = [extra[0]] + [p for p in ps if not p.eq(extra[0])]
            # facts needed to decide the conditions hold under the bounds alone when they precede them
            st.assume(self.qall(idx, body, ps))
        st.envs.pop(cf, None)
        if kind == 'list':
            return self.alloc(st, CList(ts[0], self.comp_seq(xs[0], idx, ns, bounds, allc, its, trigs, st, los)))
        if kind == 'set':
            return self.alloc(st, self.comp_map([xs[0]], ts, idx, bounds, allc, its, trigs, st, ns, los))
        return self.alloc(st, self.comp_map(xs, ts, idx, bounds, allc, its, trigs, st, ns, los))

    def unkfix(self, t, node):
        h = self.ctx.hints.get((self.cur[-1], 'elt'))
        if h is not None: return h
        raise Unsupported('element type unknown', node)

    def _mentions_any(self, f, xs):
        ids = {x.get_id() for x in xs}
        st, seen = [f], set()
        while st:
            t = st.pop()
            if t.get_id() in seen: continue
            seen.add(t.get_id())
            if t.get_id() in ids: return True
            if z3.is_quantifier(t): st.append(t.body())
            else: st.extend(t.children())
        return False

    def generaliser(self, idx, fresh):
        """replaces fresh symbols by functions of the index variables"""
        csub, fsub = [], []
        for c in fresh:
            if isinstance(c, z3.FuncDeclRef):
                self.nfresh += 1
                dom = [c.domain(k) for k in range(c.arity())]
                g = z3.Function('%s~%d' % (c.name(), self.nfresh), *([i.sort() for i in idx] + dom + [c.range()]))
                fsub.append((c, g(*(list(idx) + [z3.Var(k, d) for k, d in enumerate(dom)]))))
            else:
                self.nfresh += 1
                g = z3.Function('%s~%d' % (c.decl().name(), self.nfresh), *([i.sort() for i in idx] + [c.sort()]))
                csub.append((c, g(*idx)))
        def sub(t):
            if not csub and not fsub: return t
            t = z3.substitute(t, *csub) if csub else t
            if fsub: t = z3.substitute_funs(t, *fsub)
            return t
        return sub

    def qall(self, vs, body, pats):
        ps = []
        for p in pats:
            # a pattern has to mention every variable
            if isinstance(p, z3.PatternRef) or self.covers(p, vs): ps.append(p)
        try:
            return z3.ForAll(vs, body, patterns=ps) if ps else z3.ForAll(vs, body)
        except z3.Z3Exception:
            return z3.ForAll(vs, body)       # not a usable pattern

    def covers(self, p, vs):
        return all(self._mentions_any(p, [v]) for v in vs)

    def comp_static(self, kind, elts, gens, st, cf, node):
        """all sources of statically known length and decidable filters"""
        s0 = st.copy()
        nobl = len(self.obligs)
        st.envs[cf] = {}
        out = []
        class Stop(Exception): pass
        def rec(k):
            if k == len(gens):
                out.append([self.ev(x, st, cf) for x in elts])
                if len(out) > 200: raise Stop
                return
            g = gens[k]
            it = self.iter_of(self.ev(g.iter, st, cf), st, node)
            n = conc_int(zi(it.n))
            if n is None or n > 200 or it.kind == 'keys': raise Stop
            for i in range(n):
                self.assign(g.target, it.get(i), st, cf)
                ok = True
                for c in g.ifs:
                    f = simp(self.cond(c, st, cf))
                    if z3.is_true(f): continue
                    if z3.is_false(f): ok = False; break
                    raise Stop
                if ok: rec(k + 1)
        # cheap pre-check: a symbolic first source is the common case
        try:
            rec(0)
        except Stop:
            st.become(s0)
            del self.obligs[nobl:]
            return None
        st.envs.pop(cf, None)
        if kind == 'list': return self.alloc(st, CPy([o[0] for o in out]))
        if kind == 'set':
            r = self.alloc(st, CSet(UNK, None))
            for o in out: self.set_add(r, o[0], st, node)
            return r
        r = self.alloc(st, CDict(UNK, UNK, None, None))
        for o in out: self.dict_set(r, o[0], o[1], st, node)
        return r

    def lex(self, a, b):
        r = FALSE
        for x, y in reversed(list(zip(a, b))):
            r = Or(x < y, And(x == y, r))
        return r

    def comp_seq(self, x, idx, ns, bounds, conds, its, trigs, st, los):
        S = seqT(x.sort())
        m = len(idx)
        if m == 1 and not conds:
            # identity
            tr = trigs[0]
            if tr is not None and x.eq(tr) and S.at.eq(tr.decl()) and not self._mentions_any(tr.arg(0), idx): return tr.arg(0)
            r = self.fresh(S.sort, 'map')
            st.assume(S.len(r) == If(ns[0] >= 0, ns[0], z3.IntVal(0)))
            j = idx[0]
            lo = los[0]
            if lo is not None:
                j2 = self.boundv(z3.IntSort(), 'j')
                st.assume(z3.ForAll([j2], Implies(And(0 <= j2, j2 < ns[0]), S.at(r, j2) == z3.substitute(x, (j, j2 + lo))), patterns=[S.at(r, j2)]))
                ps = [p for p in self.pats([x], idx) if isinstance(p, z3.PatternRef) or self.covers(p, idx)]
                if ps: st.assume(z3.ForAll([j], Implies(bounds[0], S.at(r, j - lo) == x), patterns=ps))
                return r
            ps = [S.at(r, j)] + ([tr] if tr is not None else [])
            st.assume(z3.ForAll([j], Implies(bounds[0], S.at(r, j) == x), patterns=ps))
            self.defs[r.get_id()] = ('map', r, j, x)
            return r
        r = self.fresh(S.sort, 'flt')
        I = z3.IntSort()
        os_ = [self.freshf('src', I, I) for _ in idx]
        pos = self.freshf('pos', *([I] * m + [I]))
        k, k2 = self.boundv(I, 'k'), self.boundv(I, 'k')
        at_k = [(i, o(k)) for i, o in zip(idx, os_)]
        g = And(*(bounds + conds)) if len(bounds + conds) > 1 else (bounds + conds)[0]
        st.assume(S.len(r) >= 0)
        st.assume(z3.ForAll([k], Implies(And(0 <= k, k < S.len(r)), And(z3.substitute(g, *at_k), S.at(r, k) == z3.substitute(x, *at_k), pos(*[o(k) for o in os_]) == k)),
                            patterns=[S.at(r, k)] + ([os_[0](k)] if m == 1 else [z3.MultiPattern(*[o(k) for o in os_])])))
        pi = pos(*idx)
        st_tr = [t for t in trigs if t is not None]
        ps = [pi]
        if len(st_tr) == m:
            ps.append(st_tr[0] if m == 1 else (st_tr[-1] if self.covers(st_tr[-1], idx) else z3.MultiPattern(*st_tr)))
        bp = self.pats([z3.And(*conds) if conds else x, x], idx)
        for p in bp:
            if not isinstance(p, z3.PatternRef) and self.covers(p, idx) and not any(isinstance(q, z3.ExprRef) and q.eq(p) for q in ps): ps.append(p)
        st.assume(z3.ForAll(list(idx), Implies(g, And(0 <= pi, pi < S.len(r), S.at(r, pi) == x, *[o(pi) == i for o, i in zip(os_, idx)])), patterns=ps))
        st.assume(z3.ForAll([k, k2], Implies(And(0 <= k, k < k2, k2 < S.len(r)), self.lex([o(k) for o in os_], [o(k2) for o in os_])),
                            patterns=[z3.MultiPattern(os_[0](k), os_[0](k2)), z3.MultiPattern(S.at(r, k), S.at(r, k2))]))
        if m == 1:
            n0 = If(ns[0] >= 0, ns[0], z3.IntVal(0))
            st.assume(S.len(r) <= n0)
            if self.allpass and los[0] is None:
                # no element is left out, or the element at some place is
                w = self.fresh(I, 'out')
                left = z3.substitute(And(bounds[0], Not(And(*conds) if len(conds) > 1 else conds[0])), (idx[0], w))
                st.assume(Or(left, And(S.len(r) == n0, z3.ForAll([k], Implies(And(0 <= k, k < n0), And(os_[0](k) == k, pos(k) == k)), patterns=[S.at(r, k), os_[0](k)]))))
        return r

    def comp_map(self, xs, ts, idx, bounds, conds, its, trigs, st, ns=None, los=None):
        """set or dictionary built from (key[, value]) terms"""
        kt = ts[0]
        ks_ = sort(kt)
        dom = self.fresh(z3.ArraySort(ks_, z3.BoolSort()), 'cdom')
        isd = len(xs) == 2
        val = self.fresh(z3.ArraySort(ks_, sort(ts[1])), 'cval') if isd else None
        k = self.boundv(ks_, 'k')
        g = And(*(bounds + conds)) if len(bounds + conds) > 1 else (bounds + conds)[0]
        if len(idx) == 1 and its[0].enum and its[0].kind != 'enum':
            ks, kidx, S, c = its[0].enum
            el = S.at(ks, idx[0])
            if xs[0].eq(el):
                sdom = c.dom if isinstance(c, CDict) else c.arr
                f = lambda t: z3.substitute(z3.substitute(t, (el, k)), (idx[0], kidx(k)))
                cc = f(And(*conds) if len(conds) > 1 else conds[0]) if conds else TRUE
                ps = [z3.Select(dom, k)]
                # trigger also from lookups in the source
                ps += [z3.Select(c_, k) for c_ in ([sdom] + ([c.val] if isinstance(c, CDict) else [])) if z3.is_const(c_)]
                st.assume(z3.ForAll([k], z3.Select(dom, k) == And(z3.Select(sdom, k), cc), patterns=ps))
                if isd:
                    st.assume(z3.ForAll([k], Implies(z3.Select(dom, k), z3.Select(val, k) == f(xs[1])), patterns=[z3.Select(val, k)] + ps[:1]))
                return CDict(kt, ts[1], dom, val) if isd else CSet(kt, dom)
        I = z3.IntSort()
        ws = [self.freshf('wit', ks_, I) for _ in idx]
        at = [(i, w(k)) for i, w in zip(idx, ws)]
        st.assume(z3.ForAll([k], Implies(z3.Select(dom, k), And(z3.substitute(g, *at), z3.substitute(xs[0], *at) == k)), patterns=[z3.Select(dom, k)]))
        last = [w(xs[0]) for w in ws]
        ps = []
        st_tr = [t for t in trigs if t is not None]
        if st_tr and self.covers(st_tr[-1], idx): ps.append(st_tr[-1])
        elif len(st_tr) == len(idx): ps.append(z3.MultiPattern(*st_tr))
        for p in self.pats([xs[0]] + conds, idx):
            if isinstance(p, z3.PatternRef) or self.covers(p, idx): ps.append(p)
        st.assume(self.qall(list(idx), Implies(g, And(z3.Select(dom, xs[0]), Not(self.lex(last, list(idx))))), ps))
        if isd:
            st.assume(z3.ForAll([k], Implies(z3.Select(dom, k), z3.Select(val, k) == z3.substitute(xs[1], *at)), patterns=[z3.Select(val, k)]))
        # as many entries as different keys
        size = None
        if len(idx) == 1 and ns and los[0] is None:
            n = If(ns[0] >= 0, ns[0], z3.IntVal(0)) if not isinstance(ns[0], int) else z3.IntVal(max(0, ns[0]))
            def size(l):
                if conds and not all(z3.is_true(c) for c in conds): return [l <= n]
                i, j = self.fresh(I, 'dup'), self.fresh(I, 'dup')
                x = lambda t: z3.substitute(xs[0], (idx[0], t))
                return [l <= n, Or(l == n, And(0 <= i, i < j, j < n, x(i) == x(j)))]
        return CDict(kt, ts[1], dom, val, size=size) if isd else CSet(kt, dom, size=size)

    # -- built-ins --------------------------------------------------------------------------------
    def bi_len(self, a, kw, st, node): return self.length(a[0], st, node)

    def bi_range(self, a, kw, st, node):
        if len(a) == 3:
            if a[2] == -1:
                lo, hi = self.num(a[1], st, node)[1], self.num(a[0], st, node)[1]
                n = hi - lo
                n = self._nn(n)
                return Lazy(It(n, lambda i: self.mkint(simp(hi - zi(i))), kind='range'))
            raise Unsupported('range step', node)
        lo, hi = (0, a[0]) if len(a) == 1 else a
        if isinstance(lo, int) and isinstance(hi, int):
            return Lazy(It(max(0, hi - lo), lambda i: self.mkint(simp(lo + zi(i))), kind='range', lo=z3.IntVal(lo)))
        l, h = self.num(lo, st, node)[1], self.num(hi, st, node)[1]
        return Lazy(It(self._nn(simp(h - l)), lambda i: self.mkint(zi(i) if conc_int(l) == 0 else simp(l + zi(i))), kind='range', lo=l))

    def _nn(self, n):
        c = conc_int(n)
        if c is not None: return max(0, c)
        if z3.is_app(n) and n.decl().name().startswith('len@'): return n
        return If(n >= 0, n, z3.IntVal(0))

    def bi_enumerate(self, a, kw, st, node):
        it = self.iter_of(a[0], st, node)
        start = a[1] if len(a) > 1 else kw.get('start', 0)
        def get(i):
            return Tup([self.binop('Add', self.mkint(zi(i)), start, st, node), it.get(i)])
        return Lazy(It(it.n, get, kind='enum', trig=it.trig, enum=it.enum))

    def bi_zip(self, a, kw, st, node):
        its = [self.iter_of(x, st, node) for x in a]
        ns = [zi(i.n) for i in its]
        n = ns[0]
        for m in ns[1:]:
            n = n if simp(n).eq(simp(m)) else simp(If(m < n, m, n)) if conc_int(simp(If(m < n, m, n))) is not None else If(m < n, m, n)
        return Lazy(It(n, lambda i: Tup([x.get(i) for x in its]), kind='zip', trig=next((x.trig for x in its if x.trig), None)))

    def bi_reversed(self, a, kw, st, node):
        it = self.iter_of(a[0], st, node)
        n = zi(it.n)
        return Lazy(It(it.n, lambda i: it.get(self._rev(n, i)), kind='rev'))

    def _rev(self, n, i):
        r = simp(n - 1 - zi(i))
        return r

    def bi_map(self, a, kw, st, node):
        f, src = a
        it = self.iter_of(src, st, node)
        n = conc_int(zi(it.n))
        if n is not None:
            return self.alloc(st, CPy([self.call(f, [it.get(i)], {}, st, node) for i in range(n)]))
        fid = self.newframe(None, None, 'map')
        e = ast.parse('[f_(x_) for x_ in s_]', mode='eval').body
        st.envs[fid] = {'f_': f, 's_': src}
        return self.ev(e, st, fid)

    def bi_filter(self, a, kw, st, node):
        fid = self.newframe(None, None, 'filter')
        e = ast.parse('[x_ for x_ in s_ if f_(x_)]', mode='eval').body
        st.envs[fid] = {'f_': a[0], 's_': a[1]}
        return self.ev(e, st, fid)

    def bi_list(self, a, kw, st, node):
        if not a: return self.alloc(st, CPy(()))
        r = self.tolistref(a[0], st, node)
        return self.alloc(st, self.content(r, st))

    def bi_tuple(self, a, kw, st, node):
        if not a: return Tup(())
        try:
            return Tup(self.static_items(a[0], st, node))
        except Unsupported:
            # a tuple of unknown length is represented as an (unmodified) list
            return self.bi_list(a, kw, st, node)

    def bi_set(self, a, kw, st, node):
        if not a: return self.alloc(st, CSet(UNK, None))
        v = a[0]
        if isinstance(v, str):
            return set(v)
        s = self.asset(v, st)
        if s is not None: return self.alloc(st, CSet(s.t, s.arr))
        if self.isref(v) and isinstance(self.content(v, st), CDict):
            c = self.content(v, st)
            return self.alloc(st, CSet(c.kt, c.dom))
        fid = self.newframe(None, None, 'set')
        st.envs[fid] = {'s_': v}
        return self.ev(ast.parse('{x_ for x_ in s_}', mode='eval').body, st, fid)
    bi_frozenset = bi_set

    def bi_dict(self, a, kw, st, node):
        if not a: return self.alloc(st, CDict(UNK, UNK, None, None))
        v = a[0]
        if isinstance(v, dict): return self.alloc(st, self.dict_content(v, self.typeof(v, st), st)) if v else self.alloc(st, CDict(UNK, UNK, None, None))
        if self.isref(v) and isinstance(self.content(v, st), CDict):
            c = self.content(v, st)
            self.shared_elems(c.vt)
            return self.alloc(st, CDict(c.kt, c.vt, c.dom, c.val))
        fid = self.newframe(None, None, 'dict')
        st.envs[fid] = {'s_': v}
        return self.ev(ast.parse('{k_: v_ for k_, v_ in s_}', mode='eval').body, st, fid)

    def bi_str(self, a, kw, st, node): return self.tostr(a[0], st) if a else ''

    def bi_int(self, a, kw, st, node):
        if not a: return 0
        v = self.optval(a[0], st, node)
        if isinstance(v, (int, float, str)) and not isinstance(v, bool): return int(v)
        if isinstance(v, Sym) and v.t.k == 'int': return v
        if isinstance(v, Sym) and v.t.k == 'bool': return Sym(INT, If(v.x, z3.IntVal(1), z3.IntVal(0)))
        if isinstance(v, Sym) and v.t.k == 'real':
            return Sym(INT, If(v.x >= 0, z3.ToInt(v.x), -z3.ToInt(-v.x)))
        if isinstance(v, Sym) and v.t.k == 'str':
            isnum = z3.Function('isnumeral', STRT.sort, z3.BoolSort())
            self.require(st, isnum(v.x), 'ValueError', node)
            return Sym(INT, atoi(v.x))
        raise Unsupported('int()', node)

    def bi_float(self, a, kw, st, node):
        if isinstance(a[0], (int, float)): return float(a[0])
        t, x = self.num(a[0], st, node)
        self.notes.add('floating-point numbers are treated as exact rationals/reals')
        return Sym(REAL, x if t.k == 'real' else z3.ToReal(x))

    def bi_bool(self, a, kw, st, node): return self.mkbool(self.truth(a[0], st, node))

    def bi_abs(self, a, kw, st, node):
        t, x = self.num(a[0], st, node)
        return Sym(t, If(x >= 0, x, -x))

    def bi_chr(self, a, kw, st, node):
        if isinstance(a[0], int): return chr(a[0])
        t, x = self.num(a[0], st, node)
        self.require(st, And(0 <= x, x <= 0x10FFFF), 'ValueError', node)
        return Sym(STR, STRT.unit(x))

    def bi_ord(self, a, kw, st, node):
        if isinstance(a[0], str) and len(a[0]) == 1: return ord(a[0])
        x = self.strt(a[0], st, node)
        if th.is_unit(x): return self.mkint(x.arg(0))
        self.require(st, STRT.len(x) == 1, 'TypeError', node)
        return Sym(INT, STRT.at(x, 0))

    def tyname(self, v, st):
        if isinstance(v, bool) or isinstance(v, Sym) and v.t.k == 'bool': return 'bool'
        if isinstance(v, int): return 'int'
        if isinstance(v, float): return 'float'
        if isinstance(v, str): return 'str'
        if isinstance(v, Sym): return {'int': 'int', 'real': 'float', 'str': 'str'}.get(v.t.k)
        if isinstance(v, (list,)): return 'list'
        if isinstance(v, (tuple, Tup)): return 'tuple'
        if isinstance(v, dict): return 'dict'
        if isinstance(v, set): return 'set'
        if self.isref(v):
            c = self.content(v, st)
            if isinstance(c, (CList, CPy)): return 'list'
            if isinstance(c, CSet): return 'set'
            if isinstance(c, CDict): return 'dict' if c.default is None else 'defaultdict'
        return None

    def bi_type(self, a, kw, st, node):
        v = self.optval(a[0], st, node)
        n = self.tyname(v, st)
        if n == 'defaultdict': return ExtRef('collections.defaultdict')
        if n: return Bi(n)
        if self.isref(v):
            c = self.content(v, st)
            if isinstance(c, CObj) and isinstance(c.cls, ClsRef): return c.cls
        raise Unsupported('type()', node)

    def bi_isinstance(self, a, kw, st, node):
        cls = list(a[1].items) if isinstance(a[1], Tup) else [a[1]]
        def one(v):
            n = self.tyname(v, st)
            for c in cls:
                if isinstance(c, Bi):
                    if c.name == n or (c.name == 'int' and n == 'bool') or (c.name == 'dict' and n == 'defaultdict'): return True
                elif isinstance(c, ClsRef) and self.isref(v):
                    k = self.content(v, st)
                    if isinstance(k, CObj) and isinstance(k.cls, ClsRef) and self.subclass(k.cls, c): return True
            return False
        v = a[0]
        if isinstance(v, Union):
            return self.mkbool(Or(*[And(g, zb(one(x))) for g, x in v.alts]))
        if isinstance(v, Sym) and v.t.k == 'opt':
            s = sort(v.t)
            return self.mkbool(And(s.recognizer(1)(v.x), zb(one(self.unpack(s.accessor(1, 0)(v.x), v.t.a[0], st)))))
        return one(v)

    def subclass(self, c, d):
        if c.node is d.node: return True
        for b in c.node.bases:
            if isinstance(b, ast.Name):
                x = loader.lookup(c.mod, b.id)
                if isinstance(x, ClsRef) and self.subclass(x, d): return True
        return False

    def bi_hasattr(self, a, kw, st, node):
        v, n = a
        if n in ('__iter__', '__len__'):
            if isinstance(v, (list, tuple, set, dict, Tup)): return True
            if self.isref(v):
                c = self.content(v, st)
                if not isinstance(c, CObj): return True
                return c.cls.find(n) is not None
            return False
        raise Unsupported('hasattr', node)

    # min / max / sum / any / all / sorted
    def minmax(self, a, kw, st, node, mx):
        key = kw.get('key')
        if len(a) > 1 and key is None:
            m = a[0]
            for x in a[1:]:
                if isinstance(m, (int, float)) and isinstance(x, (int, float)):
                    m = max(m, x) if mx else min(m, x); continue
                c = self.lt(m, x, st, node) if mx else self.lt(x, m, st, node)
                m = self.mergev([c, Not(c)], [x, m], st, node)
            return m
        lst = self.tolistref(a[0], st, node)
        c = self.content(lst, st)
        if isinstance(c, CPy) and c.items and key is None and not any(isinstance(x, Tup) for x in c.items) and len(c.items) > 1:
            return self.minmax(c.items, {}, st, node, mx)
        if isinstance(c, CPy) and not c.items:
            if 'default' in kw: return kw['default']
            self.require(st, FALSE, 'ValueError', node)
            raise Unsupported('max of empty', node)
        c = self.tolist(c, st)
        S = seqT(sort(c.t))
        n = S.len(c.x)
        if 'default' in kw: raise Unsupported('default', node)
        self.require(st, n > 0, 'ValueError (empty)', node)
        w = self.fresh(z3.IntSort(), 'arg')
        i = self.boundv(z3.IntSort(), 'i')
        m = self.fresh(sort(c.t), 'max' if mx else 'min')
        st.assume(And(0 <= w, w < n, m == S.at(c.x, w)))
        mv = self.unpack(m, c.t, st)
        k = lambda v: v if key is None else self.call(key, [v], {}, st, node)
        ev = self.unpack(S.at(c.x, i), c.t, st)
        bad = self.lt(k(mv), k(ev), st, node) if mx else self.lt(k(ev), k(mv), st, node)
        st.assume(z3.ForAll([i], Implies(And(0 <= i, i < n), Not(bad)), patterns=[S.at(c.x, i)]))
        # the first extremal element
        st.assume(z3.ForAll([i], Implies(And(0 <= i, i < w), self.lt(k(ev), k(mv), st, node) if mx else self.lt(k(mv), k(ev), st, node)), patterns=[S.at(c.x, i)]))
        return mv

    def bi_min(self, a, kw, st, node): return self.minmax(a, kw, st, node, False)
    def bi_max(self, a, kw, st, node): return self.minmax(a, kw, st, node, True)

    def bi_sum(self, a, kw, st, node):
        v = a[0]
        if isinstance(v, Lazy) and v.it.kind == 'values':
            c = v.it.lo
            if c is None or c.kt.k == 'unk': return 0
            r = th.dsum(sort(c.kt), sort(c.vt))(c.dom, c.val)
            return Sym(c.vt, r)
        lst = self.tolistref(v, st, node)
        c = self.content(lst, st)
        if isinstance(c, CPy):
            r = a[1] if len(a) > 1 else 0
            for x in c.items: r = self.binop('Add', r, x, st, node)
            return r
        if c.t.k == 'unk': return 0
        if c.t.k == 'int': return Sym(INT, ssum_i(c.x, INTSEQ.len(c.x)))
        if c.t.k == 'real': return Sym(REAL, ssum_r(c.x, seqT(z3.RealSort()).len(c.x)))
        raise Unsupported('sum', node)

    def anyall(self, v, st, node, isany):
        lst = self.tolistref(v, st, node)
        c = self.content(lst, st)
        if isinstance(c, CPy):
            fs = [self.truth(x, st) for x in c.items]
            return self.mkbool((Or if isany else And)(*fs) if fs else zb(not isany))
        S = seqT(sort(c.t))
        i = self.boundv(z3.IntSort(), 'i')
        f = self.truth(self.unpack(S.at(c.x, i), c.t, st), st)
        b = self.fresh(z3.BoolSort(), 'any' if isany else 'all')
        w = self.fresh(z3.IntSort(), 'w')
        fw = z3.substitute(f, (i, w))
        n = S.len(c.x)
        st.assume(Implies(b if isany else Not(b), And(0 <= w, w < n, fw if isany else Not(fw))))
        st.assume(Implies(Not(b) if isany else b, z3.ForAll([i], Implies(And(0 <= i, i < n), Not(f) if isany else f), patterns=[S.at(c.x, i)])))
        d = self.defs.get(c.x.get_id())
        if d and d[0] == 'map' and d[1].eq(c.x) and d[3].sort() == z3.BoolSort():       # the same about the tests themselves
            f = z3.substitute(d[3], (d[2], i))
            st.assume(Implies(Not(b) if isany else b, z3.ForAll([i], Implies(And(0 <= i, i < n), Not(f) if isany else f))))
        return Sym(BOOL, b)

    def bi_any(self, a, kw, st, node): return self.anyall(a[0], st, node, True)
    def bi_all(self, a, kw, st, node): return self.anyall(a[0], st, node, False)

    def bi_sorted(self, a, kw, st, node):
        return self.sort_list(a[0], kw.get('key'), kw.get('reverse', False), st, node)

    def sort_list(self, v, key, rev, st, node):
        if rev not in (True, False): raise Unsupported('reverse', node)
        lst = self.tolistref(v, st, node)
        c = self.content(lst, st)
        if isinstance(c, CPy):
            if len(c.items) <= 1: return self.alloc(st, c)
            if self.elt(c, st).k == 'unk': return self.alloc(st, c)
            c = self.tolist(c, st)
        if c.t.k == 'unk': return self.alloc(st, c)
        S = seqT(sort(c.t))
        I = z3.IntSort()
        if z3.is_app_of(c.x, z3.Z3_OP_ITE):
            x = self.fresh(S.sort, 'un')
            st.assume(x == c.x)
            c = CList(c.t, x)
        r = self.fresh(S.sort, 'srt')
        pi, ip = self.freshf('perm', I, I), self.freshf('iperm', I, I)
        n = S.len(c.x)
        k, k2 = self.boundv(I, 'k'), self.boundv(I, 'k')
        st.assume(S.len(r) == n)
        st.assume(z3.ForAll([k], Implies(And(0 <= k, k < n), And(0 <= pi(k), pi(k) < n, S.at(r, k) == S.at(c.x, pi(k)), ip(pi(k)) == k)), patterns=[S.at(r, k), pi(k)]))
        st.assume(z3.ForAll([k], Implies(And(0 <= k, k < n), And(0 <= ip(k), ip(k) < n, S.at(r, ip(k)) == S.at(c.x, k), pi(ip(k)) == k)), patterns=[S.at(c.x, k), ip(k)]))
        # key of an arbitrary element
        x = self.fresh(sort(c.t), 'el')
        mark = len(self.log)
        s2 = st.copy()
        base = len(s2.pc)
        i0 = self.fresh(I, 'si')
        s2.assume(And(0 <= i0, i0 < n, x == S.at(c.x, i0)), True)
        xv = self.unpack(x, c.t, s2)
        kv = xv if key is None else self.call(key, [xv], {}, s2, node)
        y = self.fresh(sort(c.t), 'el')
        i1 = self.fresh(I, 'si')
        s2.assume(And(0 <= i1, i1 < n, y == S.at(c.x, i1)), True)
        fr = [q for q in self.log[mark:] if not any(z3.is_expr(q) and q.eq(z) for z in (y, i0, i1))]
        if fr: raise Unsupported('sort key not simple', node)
        yv = self.unpack(y, c.t, s2)
        kw_ = yv if key is None else self.call(key, [yv], {}, s2, node)
        if key is None and isinstance(v, Lazy) and v.it.kind == 'items':
            kw_, kv = kw_.items[0], kv.items[0]      # the keys of a dictionary are distinct
        less = self.lt(kw_, kv, s2, node)       # key(y) < key(x)
        A, B = S.at(r, k), S.at(r, k2)
        lt_ba = z3.substitute(less, (x, A), (y, B))
        lt_ab = z3.substitute(less, (x, B), (y, A))
        if rev: lt_ba, lt_ab = lt_ab, lt_ba
        rng = And(0 <= k, k < k2, k2 < n)
        st.assume(z3.ForAll([k, k2], Implies(rng, Not(lt_ba)), patterns=[z3.MultiPattern(A, B)]))
        st.assume(z3.ForAll([k, k2], Implies(And(rng, Not(lt_ab)), pi(k) < pi(k2)), patterns=[z3.MultiPattern(pi(k), pi(k2))]))
        return self.alloc(st, CList(c.t, r))

    def bi_next(self, a, kw, st, node):
        v = a[0]
        if self.isref(v) and isinstance(self.content(v, st), CObj) and self.content(v, st).cls == 'file':
            c = self.content(v, st)
            pos, lines = c.fields['pos'], c.fields['lines']
            n = self.length(lines, st, node)
            self.require(st, zi(self.num(pos, st)[1]) < self.num(n, st)[1], 'StopIteration', node)
            x = self.index(lines, pos, st, node)
            f = dict(c.fields); f['pos'] = self.binop('Add', pos, 1, st, node)
            self.setcontent(v, CObj('file', f), st)
            return x
        raise Unsupported('next', node)

    def bi_iter(self, a, kw, st, node): return a[0]

    def bi_open(self, a, kw, st, node):
        mode = a[1] if len(a) > 1 else kw.get('mode', 'r')
        if 'b' in mode: raise Unsupported('binary file', node)
        if self.ctx.openhook is None: raise Unsupported('open', node)
        self.openkw = kw
        return self.ctx.openhook(self, a, mode, st, node)

    def file_rest(self, v, st):
        c = self.content(v, st)
        lines, pos = c.fields['lines'], c.fields['pos']
        lc = self.tolist(self.content(lines, st), st)
        S = seqT(sort(lc.t))
        p = self.num(pos, st)[1]
        x = lc.x if conc_int(p) == 0 else S.sub(lc.x, p, S.len(lc.x))
        f = dict(c.fields); f['pos'] = Sym(INT, S.len(lc.x))
        self.setcontent(v, CObj('file', f), st)
        return self.alloc(st, CList(lc.t, x))

    # -- methods -----------------------------------------------------------------------------------
    def method(self, v, name, a, kw, st, node):
        v = self.optval(v, st, node)
        if isinstance(v, Ext): return v.method(self, name, a, kw, st, node)
        if isinstance(v, re.Pattern): return self.regex(v, name, a, st, node)
        if self.isstr(v): return self.str_method(v, name, a, kw, st, node)
        if isinstance(v, (list, tuple)) or isinstance(v, Tup):
            items = v.items if isinstance(v, Tup) else v
            if isinstance(v, Tup) and v.nt is th.OPEN and name in ('append', 'extend'): return None     # beyond the tracked entries
            if name == 'index':
                eqs = [self.eq(a[0], y, st) for y in items]
                self.require(st, Or(*eqs) if eqs else FALSE, 'ValueError', node)
                r = z3.IntVal(len(items) - 1)
                for i in reversed(range(len(items) - 1)): r = If(eqs[i], z3.IntVal(i), r)
                c = self.fresh(z3.IntSort(), 'pos')
                st.assume(c == r)
                return self.mkint(simp(r)) if conc_int(r) is not None else Sym(INT, c)
            if name == 'count': pass
            raise Unsupported('method ' + name, node)
        if isinstance(v, (dict,)):
            if name == 'get':
                d = a[1] if len(a) > 1 else None
                alts = [(self.eq(a[0], kk, st), y) for kk, y in v.items()]
                rest = Not(Or(*[g for g, _ in alts])) if alts else TRUE
                r = self.mergev([g for g, _ in alts] + [rest], [y for _, y in alts] + [d], st, node)
                return r
            if name in ('items', 'keys', 'values'):
                return list(getattr(v, name)())
        if isinstance(v, (set, frozenset)):
            r = self.alloc(st, self.asset(v, st))
            return self.method(r, name, a, kw, st, node)
        if self.isref(v):
            c = self.content(v, st)
            if isinstance(c, (CList, CPy)): return self.list_method(v, c, name, a, kw, st, node)
            if isinstance(c, CDict): return self.dict_method(v, c, name, a, kw, st, node)
            if isinstance(c, CSet): return self.set_method(v, c, name, a, kw, st, node)
            if isinstance(c, CObj) and c.cls == 'file':
                if name == 'write':
                    self.list_method(c.fields['out'], self.content(c.fields['out'], st), 'append', [a[0]], {}, st, node)
                    return None
                if name == 'close': return None
        if isinstance(v, Lazy) and v.it.kind in ('keys', 'items', 'values'):
            raise Unsupported('view method ' + name, node)
        raise Unsupported('method %s of %s' % (name, self.kind(v)), node)

    def list_method(self, r, c, name, a, kw, st, node):
        if name == 'append':
            v = a[0]
            if isinstance(c, CPy) and (isinstance(r, Ref)):
                if not (self.isref(v) and len(c.items) >= 0 and False):
                    self.setcontent(r, CPy(c.items + (v,)), st)
                    return None
            t = self.elt(c, st)
            if not (t.k == 'tup' and self.isref(v) and isinstance(self.content(v, st), CPy)):
                t = unify(t, self.typeof(v, st))
            if t.k == 'unk': raise Unsupported('append: element type unknown', node)
            c = self.tolist(c, st, t) if not (isinstance(c, CList) and c.t.k == 'unk') else CList(t, seqT(sort(t)).empty)
            S = seqT(sort(t))
            self.stored(v, st)
            self.setcontent(r, CList(t, S.app(c.x, self.pack(v, t, st))), st)
            return None
        if name == 'extend':
            l = self.tolistref(a[0], st, node)
            nv = self.binop('Add', r, l, st, node)
            self.setcontent(r, self.content(nv, st), st)
            return None
        if name == 'pop':
            k = a[0] if a else -1
            if isinstance(c, CPy):
                if isinstance(k, int):
                    if not c.items:
                        self.require(st, FALSE, 'IndexError', node); raise Unsupported('pop from empty', node)
                    it = list(c.items); x = it.pop(k)
                    self.setcontent(r, CPy(it), st)
                    return x
                c = self.tolist(c, st)
            S = seqT(sort(c.t)); n = S.len(c.x)
            self.staleviews(r, None, st)
            if k == 0:
                self.require(st, n > 0, 'IndexError', node)
                x = self.unpack(S.at(c.x, 0), c.t, st)
                self.thaw(x)
                self.setcontent(r, CList(c.t, S.sub(c.x, z3.IntVal(1), n)), st)
                return x
            if k == -1:
                self.require(st, n > 0, 'IndexError', node)
                x = self.unpack(S.at(c.x, n - 1), c.t, st)
                self.thaw(x)
                self.setcontent(r, CList(c.t, S.sub(c.x, z3.IntVal(0), n - 1)), st)
                return x
        if name == 'index' and isinstance(c, CPy): return self.method(tuple(c.items), 'index', a, kw, st, node)
        if name == 'sort':
            l = self.sort_list(r, kw.get('key'), kw.get('reverse', False), st, node)
            self.staleviews(r, None, st)
            self.setcontent(r, self.content(l, st), st)
            return None
        if name == 'tolist': return r
        if name == 'insert' and a[0] == 0:
            l = self.alloc(st, CPy((a[1],)))
            self.staleviews(r, None, st)
            self.setcontent(r, self.content(self.binop('Add', l, r, st, node), st), st)
            return None
        if name == 'count' and isinstance(c, CList):
            S = seqT(sort(c.t))
            return Sym(INT, occf(sort(c.t))(c.x, self.pack(a[0], c.t, st), S.len(c.x)))
        raise Unsupported('list.' + name, node)

    def thaw(self, x):
        """an element taken out of its container, unless it may be shared"""
        if isinstance(x, Ref): self.frozen.discard(x.c)

    def delitem(self, r, k, st, node):
        c = self.content(r, st)
        if isinstance(c, CDict):
            kk = self.pack(k, c.kt, st)
            self.require(st, z3.Select(c.dom, kk), 'KeyError', node)
            self.detach(r, kk, c, st)
            self.staleviews(r, kk, st)
            self.setcontent(r, CDict(c.kt, c.vt, z3.Store(c.dom, kk, FALSE), c.val, c.default), st)
            return
        if isinstance(c, CPy) and isinstance(k, int):
            it = list(c.items); del it[k]
            self.setcontent(r, CPy(it), st)
            return
        if isinstance(c, (CPy, CList)):
            c = self.tolist(c, st)
            S = seqT(sort(c.t)); n = S.len(c.x)
            x = self.num(k, st, node)[1]
            if isinstance(k, int) and k < 0: x = n + k
            self.require(st, And(0 <= x, x < n), 'IndexError', node)
            self.staleviews(r, None, st)
            self.setcontent(r, CList(c.t, S.cat(S.sub(c.x, z3.IntVal(0), x), S.sub(c.x, x + 1, n))), st)
            return
        raise Unsupported('del', node)

    def dict_method(self, r, c, name, a, kw, st, node):
        if name == 'get':
            d = a[1] if len(a) > 1 else None
            if c.kt.k == 'unk': return d
            k = a[0]
            if k is None and c.kt.k not in ('opt', 'none'): return d
            if isinstance(k, Sym) and k.t.k == 'opt' and c.kt.k != 'opt':
                s = sort(k.t)
                g0 = s.recognizer(1)(k.x)
                kk = self.pack(self.unpack(s.accessor(1, 0)(k.x), k.t.a[0], st), c.kt, st)
                has = And(g0, z3.Select(c.dom, kk))
            else:
                kk = self.pack(k, c.kt, st)
                has = z3.Select(c.dom, kk)
            if c.vt.k in ('list', 'set', 'dict'):
                inner = self.from_term(c.vt, z3.Select(c.val, kk))
                x = View(r, kk, c.vt)
                if d is None: return Union([(has, x), (Not(has), None)])
                if not self.spec:
                    kn = self.known(st, has)
                    if kn is not None: return x if kn else d
                try: dx = self.pack(d, c.vt, st)
                except Unsupported: return Union([(has, x), (Not(has), d)])
                y = self.alloc(st, self.from_term(c.vt, If(has, z3.Select(c.val, kk), dx)))
                self.snapshot(y, r, st)
                return y
            x = self.unpack(z3.Select(c.val, kk), c.vt, st)
            if d is not None and isinstance(x, Sym) and not isinstance(d, Union):
                td = self.typeof(d, st)
                if td == x.t: return self.unpack(If(has, x.x, self.pack(d, x.t, st)), x.t, st)
            return self.mergev([has, Not(has)], [x, d], st, node)
        if name in ('items', 'keys', 'values'):
            if c.kt.k == 'unk': return Lazy(It(0, lambda i: None, kind=name))
            ks, kidx, S = self.enum(c, st)
            trig = lambda i: S.at(ks, zi(i))
            key = lambda i: self.unpack(S.at(ks, zi(i)), c.kt, self.cst or st)
            def val(i):
                kk = S.at(ks, zi(i))
                if c.vt.k in ('list', 'set', 'dict'): return View(r, kk, c.vt)
                return self.unpack(z3.Select(c.val, kk), c.vt, self.cst or st)
            if name == 'keys': return Lazy(It(S.len(ks), key, r, kind='keys', enum=(ks, kidx, S, c), trig=trig))
            if name == 'values': return Lazy(It(S.len(ks), val, r, kind='values', lo=c, enum=(ks, kidx, S, c), trig=trig))
            return Lazy(It(S.len(ks), lambda i: Tup([key(i), val(i)]), r, kind='items', enum=(ks, kidx, S, c), trig=trig))
        if name == 'pop':
            k = a[0]
            if c.kt.k == 'unk': raise Unsupported('pop from empty dict', node)
            kk = self.pack(k, c.kt, st)
            has = z3.Select(c.dom, kk)
            if len(a) == 1: self.require(st, has, 'KeyError', node)
            x = self.unpack(z3.Select(c.val, kk), c.vt, st)
            self.thaw(x)
            if len(a) > 1: x = self.mergev([has, Not(has)], [x, a[1]], st, node)
            # views on the removed row become stale: detach them
            self.detach(r, kk, c, st)
            self.staleviews(r, kk, st)
            self.setcontent(r, CDict(c.kt, c.vt, z3.Store(c.dom, kk, FALSE), c.val, c.default), st)
            return x
        if name == 'update':
            o = a[0]
            if isinstance(o, dict): o = self.bi_dict([o], {}, st, node)
            if self.isref(o) and isinstance(self.content(o, st), CDict):
                oc = self.content(o, st)
                if oc.kt.k == 'unk': return None
                if c.kt.k == 'unk':
                    self.shared_elems(oc.vt)
                    self.setcontent(r, CDict(oc.kt, oc.vt, oc.dom, oc.val, c.default), st)
                    return None
                kt, vt = unify(c.kt, oc.kt), unify(c.vt, oc.vt)
                self.shared_elems(vt)
                self.staleviews(r, None, st)
                x, y = self.pack_content(c, DICT(kt, vt), st), self.pack_content(oc, DICT(kt, vt), st)
                x, y = self.from_term(DICT(kt, vt), x), self.from_term(DICT(kt, vt), y)
                d = self.fresh(z3.ArraySort(sort(kt), z3.BoolSort()), 'udom')
                v = self.fresh(z3.ArraySort(sort(kt), sort(vt)), 'uval')
                k = self.boundv(sort(kt), 'k')
                S_ = z3.Select
                ps = lambda f, *g: [S_(f, k)] + [S_(q, k) for q in g if z3.is_const(q)]
                st.assume(z3.ForAll([k], S_(d, k) == Or(S_(x.dom, k), S_(y.dom, k)), patterns=ps(d, x.dom, y.dom)))
                st.assume(z3.ForAll([k], S_(v, k) == If(S_(y.dom, k), S_(y.val, k), S_(x.val, k)), patterns=ps(v)))
                self.setcontent(r, CDict(kt, vt, d, v, c.default), st)
                return None
        if name == 'setdefault':
            k, d = a[0], a[1] if len(a) > 1 else None
            if c.kt.k == 'unk': raise Unsupported('setdefault: type unknown', node)
            kk = self.pack(k, c.kt, st)
            self.stored(d, st)
            dx = self.pack(d, c.vt, st)
            nv = If(z3.Select(c.dom, kk), z3.Select(c.val, kk), dx)
            self.setcontent(r, CDict(c.kt, c.vt, z3.Store(c.dom, kk, TRUE), z3.Store(c.val, kk, nv), c.default), st)
            if c.vt.k in ('list', 'set', 'dict'): return View(r, kk, c.vt)
            return self.unpack(nv, c.vt, st)
        if name == 'copy':
            self.shared_elems(c.vt)
            return self.alloc(st, CDict(c.kt, c.vt, c.dom, c.val, c.default))
        raise Unsupported('dict.' + name, node)

    def detach(self, r, kk, c, st):
        if c.vt.k not in ('list', 'set', 'dict'): return
        snap = self.from_term(c.vt, z3.Select(c.val, kk))
        for cell, h in list(st.heap.items()):
            if isinstance(h, View) and self.samebase(h.base, r, st) and h.key.eq(kk):
                st.heap[cell] = snap
        for f, env in st.envs.items():
            for n, v in env.items():
                if isinstance(v, View) and self.samebase(v.base, r, st) and v.key.eq(kk):
                    env[n] = self.alloc(st, snap)

    def samebase(self, a, b, st):
        return isinstance(a, Ref) and isinstance(b, Ref) and a.c == b.c

    def set_add(self, r, v, st, node):
        c = self.content(r, st)
        v = self.nonone(v, st)
        t = self.typeof(v, st)
        if c.t.k == 'unk': c = CSet(t, z3.K(sort(t), FALSE))
        t = unify(c.t, t)
        arr = c.arr if t == c.t else self.pack_content(c, SET(t), st)
        self.setcontent(r, CSet(t, z3.Store(arr, self.pack(v, t, st), TRUE)), st)

    def set_method(self, r, c, name, a, kw, st, node):
        if name == 'add':
            self.set_add(r, a[0], st, node); return None
        if name in ('update', 'union', 'intersection', 'difference'):
            o = self.asset(a[0], st)
            if o is None:
                o = self.content(self.bi_set([a[0]], {}, st, node), st)
            n = self.setop({'update': 'BitOr', 'union': 'BitOr', 'intersection': 'BitAnd', 'difference': 'Sub'}[name], c, o, st)
            if name == 'update': self.setcontent(r, n, st); return None
            return self.alloc(st, n)
        if name in ('remove', 'discard'):
            kk = self.pack(a[0], c.t, st)
            if name == 'remove': self.require(st, z3.Select(c.arr, kk), 'KeyError', node)
            self.setcontent(r, CSet(c.t, z3.Store(c.arr, kk, FALSE)), st)
            return None
        if name == 'copy': return self.alloc(st, CSet(c.t, c.arr))
        raise Unsupported('set.' + name, node)

    def counter(self, v, st, node):
        lst = self.tolistref(v, st, node)
        c = self.tolist(self.content(lst, st), st)
        if c.t.k == 'unk': return self.alloc(st, CDict(UNK, UNK, None, None))
        S = seqT(sort(c.t))
        dom = self.fresh(z3.ArraySort(sort(c.t), z3.BoolSort()), 'cnt')
        val = self.fresh(z3.ArraySort(sort(c.t), z3.IntSort()), 'cnt')
        k = self.boundv(sort(c.t), 'k')
        o = occf(sort(c.t))(c.x, k, S.len(c.x))
        st.assume(z3.ForAll([k], And(z3.Select(dom, k) == (o > 0)), patterns=[z3.Select(dom, k), o]))
        st.assume(z3.ForAll([k], z3.Select(val, k) == o, patterns=[z3.Select(val, k), o]))
        return self.alloc(st, CDict(c.t, INT, dom, val, Bi('int')))

    # -- strings -------------------------------------------------------------------------------------
    def str_method(self, v, name, a, kw, st, node):
        if isinstance(v, str) and all(isinstance(x, (str, int)) and not isinstance(x, Sym) for x in a) and name in (
                'split', 'strip', 'upper', 'lower', 'replace', 'startswith', 'endswith', 'find', 'format', 'lstrip', 'rstrip') and not kw:
            r = getattr(v, name)(*a)
            return self.alloc(st, CPy(r)) if isinstance(r, list) else r
        if name == 'join':
            lst = self.tolistref(a[0], st, node)
            c = self.content(lst, st)
            if isinstance(c, CPy):
                out = []
                for i, x in enumerate(c.items):
                    if i and v != '': out.append(v)
                    out.append(self.mkstr(self.strt(x, st, node)))
                return self.strcat(out)
            if c.t.k == 'unk': return ''
            if c.t.k != 'str': raise Unsupported('join', node)
            if v == '': return Sym(STR, joinl(c.x, STRSEQ.len(c.x)))
            return Sym(STR, joinsep(self.strt(v, st), c.x))
        if name == 'format' and isinstance(v, str):
            parts, i = [], 0
            for m in re.finditer(r'\{\{|\}\}|\{[^}]*\}|[^{}]+', v):
                tk = m.group()
                if tk == '{}':
                    parts.append(self.tostr(a[i], st)); i += 1
                elif tk.startswith('{') and tk != '{{':
                    i += 1; parts.append(Sym(STR, self.fresh(STRT.sort, 'text')))
                else: parts.append(tk.replace('{{', '{').replace('}}', '}'))
            return self.strcat(parts)
        x = self.strt(v, st, node)
        if name == 'split':
            if not a: return self.alloc(st, CList(STR, splitws(x)))
            if isinstance(a[0], str): return self.alloc(st, CList(STR, splitsep(x, sconst(a[0]))))
        if name == 'strip' and not a: return Sym(STR, strip_(x))
        if name in ('lower', 'upper') and not a: return Sym(STR, z3.Function('str_' + name, STRT.sort, STRT.sort)(x))
        if name == 'replace': return Sym(STR, replace_(x, self.strt(a[0], st), self.strt(a[1], st)))
        if name == 'startswith' and not isinstance(a[0], (tuple, Tup)):
            p = self.strt(a[0], st)
            if len(a) == 2:
                b = zi(a[1].x if isinstance(a[1], Sym) else a[1])
                b = If(b < 0, If(STRT.len(x) + b < 0, z3.IntVal(0), STRT.len(x) + b), b)
                return self.mkbool(And(b + STRT.len(p) <= STRT.len(x), self.eqt(STRT.sub(x, b, b + STRT.len(p)), p, STR)))
            if len(a) != 1: raise Unsupported('startswith with an end', node)
            return self.mkbool(self.eqt(STRT.sub(x, z3.IntVal(0), STRT.len(p)), p, STR)) if not isinstance(a[0], str) else self.mkbool(
                And(STRT.len(x) >= len(a[0]), *[STRT.at(x, i) == ord(ch) for i, ch in enumerate(a[0])]))
        if name == 'endswith' and isinstance(a[0], str) and len(a) == 1:
            n = len(a[0])
            return self.mkbool(And(STRT.len(x) >= n, *[STRT.at(x, STRT.len(x) - n + i) == ord(ch) for i, ch in enumerate(a[0])]))
        raise Unsupported('str.' + name, node)

    # -- regular expressions: one-character classes and whitespace runs ---------------------------------
    def regex(self, p, name, a, st, node):
        tree = list(sre_parse.parse(p.pattern, p.flags & ~re.UNICODE))
        if name == 'sub' and len(a) == 2 and isinstance(a[0], str):
            x = self.strt(a[1], st, node)
            if len(tree) == 1:
                pred = self.charclass(tree[0], st)
                if pred is not None and len(a[0]) == 1 and '\\' not in a[0]:
                    rg = self.ranges(tree[0])
                    if rg is not None:
                        r = z3.Function('mapc_%s_%x' % ('_'.join('%x-%x' % ab for ab in rg), ord(a[0])), STRT.sort, STRT.sort)(x)
                    else:
                        r = self.fresh(STRT.sort, 'sub')
                    i = self.boundv(z3.IntSort(), 'i')
                    st.assume(STRT.len(r) == STRT.len(x))
                    ch = STRT.at(x, i)
                    st.assume(z3.ForAll([i], Implies(And(0 <= i, i < STRT.len(x)), STRT.at(r, i) == If(pred(ch), z3.IntVal(ord(a[0])), ch)), patterns=[STRT.at(r, i), ch]))
                    return Sym(STR, r)
                op, av = tree[0]
                if op is sre_c.MAX_REPEAT and av[0] == 1 and av[1] is sre_c.MAXREPEAT and a[0] == ' ' and len(av[2]) == 1:
                    if self.is_space_class(list(av[2])[0]): return Sym(STR, collapse(x))
            f = self.ctx.regexfns.get((p.pattern, a[0]))
            if f is None and self.ctx.opaque_regex:
                f = z3.Function('resub_%s_%s' % (p.pattern.encode('unicode_escape').decode().replace('\\', '!'), a[0].encode('unicode_escape').decode().replace('\\', '!')), STRT.sort, STRT.sort)
            if f is not None: return Sym(STR, f(x))
        if name == 'sub' and len(a) == 2 and isinstance(a[0], Sym) and z3.is_app(a[0].x) and a[0].x.decl().name() == 'strmul' and th.codes(a[0].x.arg(0)) is not None:
            # a repeated literal as replacement: an uninterpreted function of the count and the string
            q = lambda t: t.encode('unicode_escape').decode().replace('\\', '!')
            f = z3.Function('resubn_%s_%s' % (q(p.pattern), q(''.join(map(chr, th.codes(a[0].x.arg(0)))))), z3.IntSort(), STRT.sort, STRT.sort)
            return Sym(STR, f(a[0].x.arg(1), self.strt(a[1], st, node)))
        if name == 'findall' and len(a) == 1 and p.groups <= 1:
            # the matches of the pattern (of its group): some strings, none shorter than the shortest match
            self.strt(a[0], st, node)
            r = self.fresh(STRSEQ.sort, 'found')
            w = tree_width(p) if p.groups == 0 else 0
            i = self.boundv(z3.IntSort(), 'i')
            st.assume(z3.ForAll([i], Implies(And(0 <= i, i < STRSEQ.len(r)), STRT.len(STRSEQ.at(r, i)) >= w), patterns=[STRSEQ.at(r, i)]))
            return self.alloc(st, CList(STR, r))
        raise Unsupported('regex %s on %r' % (name, p.pattern), node)

    def ranges(self, nodev):
        """canonical ranges of a character class without categories"""
        op, av = nodev
        neg = False
        if op is sre_c.LITERAL: items = [(sre_c.LITERAL, av)]
        elif op is sre_c.NOT_LITERAL: items, neg = [(sre_c.LITERAL, av)], True
        elif op is sre_c.IN:
            neg = bool(av) and av[0][0] is sre_c.NEGATE
            items = av[1:] if neg else av
        else: return None
        rs = []
        for o, x in items:
            if o is sre_c.LITERAL: rs.append((x, x))
            elif o is sre_c.RANGE: rs.append((x[0], x[1]))
            else: return None
        rs.sort()
        out = []
        for a, b in rs:
            if out and a <= out[-1][1] + 1: out[-1] = (out[-1][0], max(b, out[-1][1]))
            else: out.append((a, b))
        if neg:
            comp, p = [], 0
            for a, b in out:
                if a > p: comp.append((p, a - 1))
                p = b + 1
            if p <= 0x10FFFF: comp.append((p, 0x10FFFF))
            out = comp
        return out

    def is_space_class(self, nodev):
        op, av = nodev
        return op is sre_c.IN and len(av) == 1 and av[0] == (sre_c.CATEGORY, sre_c.CATEGORY_SPACE)

    def charclass(self, nodev, st):
        op, av = nodev
        if op is sre_c.LITERAL: return lambda c: c == av
        if op is sre_c.NOT_LITERAL: return lambda c: c != av
        if op is sre_c.IN:
            neg = av and av[0][0] is sre_c.NEGATE
            items = av[1:] if neg else av
            def pred(c):
                fs = []
                for o, x in items:
                    if o is sre_c.LITERAL: fs.append(c == x)
                    elif o is sre_c.RANGE: fs.append(And(x[0] <= c, c <= x[1]))
                    elif o is sre_c.CATEGORY and x is sre_c.CATEGORY_SPACE: fs.append(isws(c))
                    else: raise Unsupported('character class')
                f = Or(*fs) if len(fs) > 1 else fs[0]
                return Not(f) if neg else f
            try:
                pred(z3.Int('c!'))
            except Unsupported:
                return None
            return pred
        return None


def compile_(p, flags, node):
    f = 0
    for x in flags:
        if getattr(x, 'name', '').startswith('re.'): x = getattr(re, x.name[3:])
        if not isinstance(x, int): raise Unsupported('flags of a pattern', node)
        f |= int(x)
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return re.compile(p, f)


def tree_width(p):
    return sre_parse.parse(p.pattern, p.flags & ~re.UNICODE).getwidth()[0]


def walk_own(fnode):
    """nodes of a function without nested functions"""
    stack = list(fnode.body)
    while stack:
        n = stack.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)): continue
            stack.append(c)
