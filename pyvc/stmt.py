"""Statements, loops, exceptions."""
import ast
import z3
from .calls import *
from .calls import walk_own
from .exec import (Sym, Tup, Ref, View, Union, Clo, Bound, BM, Bi, FunV, Lazy, UNINIT, CList, CPy, CDict, CSet,
                   CObj, State, It, simp, zb, zi, conc_int, unify, UNK, And, Or, Not, If, Implies, TRUE, FALSE, Unsupported)
from . import loader

UNROLL = 40


def loops_of(fnode):
    """loop statements of a function in source order (nested functions excluded)"""
    out = []
    def rec(body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)): continue
            if isinstance(s, (ast.For, ast.While)): out.append(s)
            for f in ('body', 'orelse', 'finalbody'):
                b = getattr(s, f, None)
                if b: rec(b)
            for h in getattr(s, 'handlers', []): rec(h.body)
    rec(fnode.body)
    return out


def comps_of(fnode):
    """comprehensions of a function in source order (nested functions excluded)"""
    out = []
    def rec(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)): return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)): out.append(n)
        for c in ast.iter_child_nodes(n): rec(c)
    for s in fnode.body: rec(s)
    return out


def locals_of(fnode):
    """names in order of first binding occurrence"""
    out = [a.arg for a in fnode.args.args]
    def add(n):
        if n not in out: out.append(n)
    def rec(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            add(n.name); return
        if isinstance(n, ast.Lambda): return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)): return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store): add(n.id)
        if isinstance(n, ast.For):
            rec(n.target); rec(n.iter)
            for s in n.body + n.orelse: rec(s)
            return
        for c in ast.iter_child_nodes(n): rec(c)
    for s in fnode.body: rec(s)
    return out


class StmtMixin:
    def block(self, stmts, st, fid):
        outs = []
        cur = st
        for s in stmts:
            base = len(cur.pc)
            before = self.after_values(stmts, cur, fid)
            r = self.stmt(s, cur, fid)
            norm = [o for o in r if o[0] == 'normal']
            outs += [o for o in r if o[0] != 'normal']
            if not norm: return outs
            if len(norm) == 1: cur = norm[0][1]
            elif self.paths:
                # every path on its own
                rest = stmts[stmts.index(s) + 1:]
                fr, acc = set(self.frozen), set()
                for o in norm:
                    self.frozen = set(fr)        # what other paths share does not matter to this one
                    outs += self.block(rest, o[1], fid)
                    acc |= self.frozen
                self.frozen = acc
                return outs
            else: cur, _ = self.merge(base, [(o[1], None) for o in norm])
            if before is not None: self.after_stmt(s, before, cur, fid, stmts[stmts.index(s) + 1:])
        outs.append(('normal', cur, None))
        return outs

    def after_values(self, stmts, st, fid):
        if not self.after or stmts is not self.topbody or fid != self.top_fid: return None
        names = self.fnnames(fid)
        def val(v): return (v.c, st.heap[v.c]) if isinstance(v, Ref) else v
        return {n: val(st.envs[fid].get(names.get(n, n), UNINIT)) for n in self.after}

    def after_stmt(self, s, before, st, fid, rest):
        """a top-level statement changed a variable: its assertion is proved, and all that is kept"""
        names = self.fnnames(fid)
        for n, (t, invs) in self.after.items():
            v, b = st.envs[fid].get(names.get(n, n), UNINIT), before[n]
            if v is UNINIT or v is None or isinstance(v, Union): continue
            if isinstance(v, Ref):
                if isinstance(b, tuple) and b[0] == v.c and self.samec(b[1], st.heap[v.c]): continue
            elif self.same(v, b): continue
            for k, q in enumerate(invs):
                o = st.copy()
                self.oblig(o, self.spec_formula(q, o, fid, {}), 'after the statement at line %d: %s' % (s.lineno, q), s)
            if not rest or isinstance(rest[0], ast.Return): pass        # the postconditions see the value itself
            elif isinstance(v, Ref):
                if self.snaps: self.poison(v.c, st)
                st.heap[v.c] = self.from_term(t, self.fresh(sort(t), n))
            else: st.envs[fid][names.get(n, n)] = self.fresh_of(t, st, n)
            for q in invs: st.assume(self.spec_formula(q, st, fid, {}))

    def stmt(self, s, st, fid):
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is None: raise Unsupported('statement ' + type(s).__name__, s)
        try:
            return m(s, st, fid)
        except Unsupported as e:
            if getattr(e, 'node', None) is None: e.node = s
            raise

    def st_Pass(self, s, st, fid): return [('normal', st, None)]
    def st_Global(self, s, st, fid): raise Unsupported('global', s)

    def st_Expr(self, s, st, fid):
        if isinstance(s.value, ast.Constant): return [('normal', st, None)]
        if isinstance(s.value, ast.Yield):
            v = self.ev(s.value.value, st, fid) if s.value.value else None
            f = self.yield_frame(fid)
            r = st.envs[f]['$yield']
            self.list_method(r, self.content(r, st), 'append', [v], {}, st, s)
            return [('normal', st, None)]
        if isinstance(s.value, ast.YieldFrom):
            v = self.ev(s.value.value, st, fid)
            r = st.envs[self.yield_frame(fid)]['$yield']
            self.list_method(r, self.content(r, st), 'extend', [v], {}, st, s)
            return [('normal', st, None)]
        self.ev(s.value, st, fid)
        return [('normal', st, None)]

    def yield_frame(self, fid):
        return fid

    def st_Return(self, s, st, fid):
        v = self.ev(s.value, st, fid) if s.value is not None else None
        return [('return', st, v)]

    def st_Break(self, s, st, fid): return [('break', st, None)]
    def st_Continue(self, s, st, fid): return [('continue', st, None)]

    def st_FunctionDef(self, s, st, fid):
        if s.decorator_list: raise Unsupported('decorator', s)
        d = [self.ev(x, st, fid) for x in s.args.defaults]
        st.envs[fid][s.name] = Clo(s, fid, self.frames[fid][0], self.frames[fid][2] + '.<locals>.' + s.name, d)
        return [('normal', st, None)]

    def st_Import(self, s, st, fid):
        for a in s.names:
            st.envs[fid][a.asname or a.name.split('.')[0]] = loader._import(self.frames[fid][0], s, a)
        return [('normal', st, None)]
    st_ImportFrom = st_Import

    def st_Assert(self, s, st, fid):
        c = self.cond(s.test, st, fid)
        self.require(st, c, 'AssertionError', s)
        return [('normal', st, None)]

    def st_Raise(self, s, st, fid):
        e = s.exc
        if isinstance(e, ast.Call):
            # the message is evaluated for its own errors
            for a in e.args:
                try: self.ev(a, st, fid)
                except Unsupported: pass
            e = e.func
        n = e.id if isinstance(e, ast.Name) else e.attr if isinstance(e, ast.Attribute) else 'Exception'
        return [('raise', st, n)]

    def st_Assign(self, s, st, fid):
        v = self.ev(s.value, st, fid)
        for t in s.targets: self.assign(t, v, st, fid)
        return [('normal', st, None)]

    def st_AnnAssign(self, s, st, fid):
        if s.value is not None: self.assign(s.target, self.ev(s.value, st, fid), st, fid)
        return [('normal', st, None)]

    def st_AugAssign(self, s, st, fid):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, st, fid, t)
            setter = lambda v: self.assign(t, v, st, fid)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st, fid)
            cur = self.attr(o, t.attr, st, t)
            setter = lambda v: self.setattr_(o, t.attr, v, st, t)
        else:
            o = self.ev(t.value, st, fid)
            if isinstance(t.slice, ast.Slice): raise Unsupported('slice assignment', s)
            k = self.ev(t.slice, st, fid)
            cur = self.index(o, k, st, t)
            setter = lambda v: self.setitem(o, k, v, st, t)
        rhs = self.ev(s.value, st, fid)
        if self.isref(cur) and op == 'Add' and isinstance(self.content(cur, st), (CList, CPy)):
            self.list_method(cur, self.content(cur, st), 'extend', [rhs], {}, st, s)
            return [('normal', st, None)]
        if self.isref(cur) and op in ('BitOr', 'Sub', 'BitAnd', 'BitXor') and isinstance(self.content(cur, st), CSet):
            # in place
            o = self.asset(rhs, st)
            if o is None: raise Unsupported('in-place set operation', s)
            self.setcontent(cur, self.setop(op, self.content(cur, st), o, st), st)
            return [('normal', st, None)]
        setter(self.binop(op, cur, rhs, st, s))
        return [('normal', st, None)]

    def st_Delete(self, s, st, fid):
        for t in s.targets:
            if isinstance(t, ast.Name): st.envs[fid][t.id] = UNINIT
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, st, fid)
                self.delitem(o, self.ev(t.slice, st, fid), st, s)
            else: raise Unsupported('del', s)
        return [('normal', st, None)]

    # -- assignment --------------------------------------------------------------------
    def assign(self, t, v, st, fid):
        if isinstance(t, ast.Name):
            st.envs[fid][t.id] = v
            return
        if isinstance(t, (ast.Tuple, ast.List)):
            v = self.optval(v, st, t)
            items = None
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            try:
                items = self.static_items(v, st, t)
            except Unsupported:
                if star: raise
                n = self.length(v, st, t)
                self.require(st, self.num(n, st)[1] == len(t.elts), 'ValueError (unpacking)', t)
                items = [self.index(v, i, st, t) for i in range(len(t.elts))]
            if star:
                k = star[0]; m = len(t.elts) - k - 1
                if len(items) < len(t.elts) - 1: raise Unsupported('unpacking', t)
                items = items[:k] + [self.alloc(st, CPy(items[k:len(items) - m]))] + (items[len(items) - m:] if m else [])
                tg = [x.value if isinstance(x, ast.Starred) else x for x in t.elts]
            else:
                tg = t.elts
                if isinstance(v, Tup) and v.nt is th.OPEN and len(items) < len(tg): items = items + [self.index(v, i, st, t) for i in range(len(items), len(tg))]
                if len(items) != len(tg):
                    self.require(st, FALSE, 'ValueError (unpacking)', t)
                    raise Unsupported('unpacking arity', t)
            for x, y in zip(tg, items): self.assign(x, y, st, fid)
            return
        if isinstance(t, ast.Attribute):
            self.setattr_(self.ev(t.value, st, fid), t.attr, v, st, t)
            return
        if isinstance(t, ast.Subscript):
            if isinstance(t.slice, ast.Slice): raise Unsupported('slice assignment', t)
            o = self.ev(t.value, st, fid)
            self.setitem(o, self.ev(t.slice, st, fid), v, st, t)
            return
        raise Unsupported('assignment target', t)

    def setattr_(self, o, name, v, st, node):
        o = self.optval(o, st, node)
        if not self.isref(o) or not isinstance(self.content(o, st), CObj): raise Unsupported('attribute assignment', node)
        c = self.content(o, st)
        if isinstance(c.cls, ClsRef):
            m = c.cls.find(name + '.setter')
            if m:
                self.callfn(m, [o, v], {}, st, node)
                return
        f = dict(c.fields)
        f[name] = v
        self.setcontent(o, CObj(c.cls, f), st)

    def setitem(self, o, k, v, st, node):
        o = self.optval(o, st, node)
        if isinstance(o, Ext): return o.setitem(self, k, v, st, node)
        if not self.isref(o): raise Unsupported('item assignment', node)
        c = self.content(o, st)
        if isinstance(c, CDict):
            self.dict_set(o, k, v, st, node)
            return
        if isinstance(c, CPy) and isinstance(k, int):
            if not -len(c.items) <= k < len(c.items):
                self.require(st, FALSE, 'IndexError', node)
                raise Unsupported('index out of range', node)
            it = list(c.items); it[k] = v
            self.setcontent(o, CPy(it), st)
            return
        if isinstance(c, (CList, CPy)):
            c = self.tolist(c, st)
            if c.t.k == 'unk':
                self.require(st, FALSE, 'IndexError', node)
                raise Unsupported('assignment into empty list', node)
            t = unify(c.t, self.typeof(v, st)) if c.t.k not in ('list', 'dict', 'set') else c.t
            c = self.tolist(c, st, t)
            S = seqT(sort(c.t))
            x = self.num(k, st, node)[1]
            n = S.len(c.x)
            if isinstance(k, int) and k < 0: x = n + k
            self.require(st, And(0 <= x, x < n), 'IndexError', node)
            self.stored(v, st)
            self.setcontent(o, CList(c.t, S.upd(c.x, x, self.pack(v, c.t, st))), st)
            return
        if isinstance(c, CObj) and c.cls == 'matrix':
            self.matrix_set(o, c, k, v, st, node)
            return
        if isinstance(c, CObj) and isinstance(c.cls, ClsRef):
            m = c.cls.find('__setitem__')
            if m:
                self.callfn(m, [o, k, v], {}, st, node)
                return
        raise Unsupported('item assignment', node)

    # -- branching ------------------------------------------------------------------------
    def st_If(self, s, st, fid):
        c = self.cond(s.test, st, fid)
        z = simp(c) if not z3.is_quantifier(c) else c
        if z3.is_true(z): return self.block(s.body, st, fid)
        if z3.is_false(z): return self.block(s.orelse, st, fid) if s.orelse else [('normal', st, None)]
        base = len(st.pc)
        a, b = st.copy(), st
        a.assume(c, True)
        b.assume(Not(c), True)
        ra = self.block(s.body, a, fid)
        rb = self.block(s.orelse, b, fid) if s.orelse else [('normal', b, None)]
        outs = [o for o in ra + rb if o[0] != 'normal']
        norm = [o for o in ra + rb if o[0] == 'normal']
        if len(norm) == 1 or self.paths: outs += norm
        elif norm:
            m, _ = self.merge(base, [(o[1], None) for o in norm])
            outs.append(('normal', m, None))
        return outs

    def st_With(self, s, st, fid):
        for i in s.items:
            v = self.ev(i.context_expr, st, fid)
            if i.optional_vars is not None: self.assign(i.optional_vars, v, st, fid)
        return self.block(s.body, st, fid)

    EXC = {'KeyError': ('LookupError', 'Exception'), 'IndexError': ('LookupError', 'Exception'), 'UnboundLocalError': ('NameError', 'Exception')}

    def catches(self, h, exc):
        name = exc.split(' ')[0].split('(')[0]
        if h.type is None: return True
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        for t in ts:
            n = t.id if isinstance(t, ast.Name) else t.attr if isinstance(t, ast.Attribute) else ''
            if n == name or n in ('Exception', 'BaseException') or n in self.EXC.get(name, ()): return True
        return False

    def st_Try(self, s, st, fid):
        if s.finalbody: raise Unsupported('finally', s)
        base = len(st.pc)
        self.sinks.append([])
        try:
            outs = self.block(s.body, st, fid)
        finally:
            exc = self.sinks.pop()
        res = []
        for o in outs:
            if o[0] == 'raise': exc.append((o[1], o[2]))
            elif o[0] == 'normal' and s.orelse: res += self.block(s.orelse, o[1], fid)
            else: res.append(o)
        for es, en in exc:
            for h in s.handlers:
                if self.catches(h, en):
                    if h.name: es.envs[fid][h.name] = ExtRef('exception')
                    res += self.block(h.body, es, fid)
                    break
            else:
                res.append(('raise', es, en))
        norm = [o for o in res if o[0] == 'normal']
        res = [o for o in res if o[0] != 'normal']
        if len(norm) == 1: res.append(norm[0])
        elif norm:
            m, _ = self.merge(base, [(o[1], None) for o in norm])
            res.append(('normal', m, None))
        return res

    # -- loops ------------------------------------------------------------------------------
    def loopspec(self, s, fid):
        if getattr(s, '_spec', None) is not None: return s._spec
        fn = self.frames[fid][3]
        key = self.frames[fid][2]
        if fn is None: return None
        ls = self.ctx.loops.get(key)
        if not ls: return None
        nodes = loops_of(fn)
        if len(nodes) != len(ls):
            self.unmatched.append('%s: %d loops, %d annotations' % (key, len(nodes), len(ls)))
            return None
        for i, n in enumerate(nodes):
            if n is s: return ls[i]
        return None

    def compspec(self, node, fid):
        """invariants for a comprehension, read as the loops it abbreviates"""
        while fid is not None and self.frames[fid][3] is None: fid = self.frames[fid][1]
        if fid is None: return None
        key, fn = self.frames[fid][2], self.frames[fid][3]
        cs = self.ctx.comps.get(key)
        if not cs: return None
        nodes = comps_of(fn)
        if len(nodes) != cs[0]:
            self.unmatched.append('%s: %d comprehensions, annotations for %d' % (key, len(nodes), cs[0]))
            return None
        for i, n in enumerate(nodes):
            if n is node:
                sp = cs[1].get(i)
                return sp(self.fixed) if callable(sp) else sp        # annotations may depend on the case of a split
        return None

    def comp_loops(self, kind, elts, gens, specs, st, fid, node):
        loc = lambda n: ast.fix_missing_locations(ast.copy_location(n, node))
        out = ast.Name(id='_out', ctx=ast.Load())
        if kind == 'dict':
            body = [ast.Assign(targets=[ast.Subscript(value=out, slice=elts[0], ctx=ast.Store())], value=elts[1])]
        else:
            body = [ast.Expr(value=ast.Call(func=ast.Attribute(value=out, attr='append' if kind == 'list' else 'add', ctx=ast.Load()), args=[elts[0]], keywords=[]))]
        for g, sp in reversed(list(zip(gens, specs))):
            for c in reversed(g.ifs): body = [ast.If(test=c, body=body, orelse=[])]
            f = ast.For(target=g.target, iter=g.iter, body=body, orelse=[])
            f._spec = sp
            body = [f]
        body = [loc(b) for b in body]
        cf = self.newframe(self.frames[fid][0], fid, '<comp>')
        r = self.alloc(st, {'list': lambda: CPy(()), 'set': lambda: CSet(UNK, None), 'dict': lambda: CDict(UNK, UNK, None, None)}[kind]())
        st.envs[cf] = {'_out': r}
        base = len(st.pc)
        rets = []
        for k, s, v in self.block(body, st, cf):
            if k == 'raise':
                if self.sinks: self.sinks[-1].append((s, v))
                elif not self.spec: self.oblig(s, FALSE, 'no %s raised' % (v,), node)
                continue
            rets.append((s, None))
        if not rets: raise Unsupported('comprehension without a normal end', node)
        new, _ = self.merge(base, rets)
        st.become(new)
        r = st.envs[cf]['_out']
        st.envs.pop(cf, None)
        return r

    def st_For(self, s, st, fid):
        src = self.ev(s.iter, st, fid)
        it = self.iter_of(src, st, s)
        spec = self.loopspec(s, fid)
        n = conc_int(zi(it.n))
        if n is not None and n <= UNROLL and (n == 0 or not (spec and spec.cut)) and not it.enum:
            return self.unroll(s, it, n, st, fid, spec)
        return self.cutloop(s, st, fid, it, spec)

    def unroll(self, s, it, n, st, fid, spec=None):
        outs, brk, cur = [], [], st
        invs = spec.inv if spec else []
        pre = st.copy() if invs else None
        base = len(st.pc)
        for i in range(n):
            b2 = len(cur.pc)
            sv, self.cst = self.cst, cur
            v = it.get(i)
            self.cst = sv
            self.assign(s.target, v, cur, fid)
            r = self.block(s.body, cur, fid)
            nxt = [o[1] for o in r if o[0] in ('normal', 'continue')]
            brk += [o[1] for o in r if o[0] == 'break']
            outs += [o for o in r if o[0] in ('return', 'raise')]
            if not nxt:
                cur = None
                break
            for x in nxt if not self.quiet else []:
                for k, inv in enumerate(invs):
                    o2 = x.copy()
                    self.oblig(o2, self.spec_formula(inv, o2, fid, {'$pre': pre}), 'unrolled loop at line %d, round %d: invariant %d: %s' % (s.lineno, i, k, inv), s)
            cur = nxt[0] if len(nxt) == 1 else self.merge(b2, [(x, None) for x in nxt])[0]
            if invs:
                # only the invariant is kept of the variables named in types
                names = self.fnnames(fid)
                for x, t in spec.types.items():
                    x = names.get(x, x)
                    if x in cur.envs[fid] and t.k in ('int', 'real', 'str', 'bool'): cur.envs[fid][x] = self.fresh_of(t, cur, x)
                for inv in invs: cur.assume(self.spec_formula(inv, cur, fid, {'$pre': pre}))
        norm = []
        if cur is not None:
            if s.orelse:
                for o in self.block(s.orelse, cur, fid):
                    (norm.append(o[1]) if o[0] == 'normal' else outs.append(o))
            else: norm.append(cur)
        norm += brk
        if len(norm) == 1: outs.append(('normal', norm[0], None))
        elif norm: outs.append(('normal', self.merge(base, [(x, None) for x in norm])[0], None))
        return outs

    def st_While(self, s, st, fid):
        return self.cutloop(s, st, fid, None, self.loopspec(s, fid))

    def same(self, a, b):
        if a is b: return True
        if isinstance(a, Sym) and isinstance(b, Sym): return a.t == b.t and a.x.eq(b.x)
        if isinstance(a, (Ref,)) and isinstance(b, Ref): return a.c == b.c
        if isinstance(a, View) and isinstance(b, View): return a.key.eq(b.key) and self.same(a.base, b.base)
        if isinstance(a, Tup) and isinstance(b, Tup): return len(a.items) == len(b.items) and all(self.same(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, Union) or isinstance(b, Union): return False
        if isinstance(a, (Clo, Bound, FnRef, ClsRef)) and type(a) is type(b):
            if isinstance(a, Clo): return a.node is b.node and a.fid == b.fid
            if isinstance(a, Bound): return a.fn.key == b.fn.key and self.same(a.obj, b.obj)
            return a is b or getattr(a, 'node', 0) is getattr(b, 'node', 1)
        if type(a) is type(b) and isinstance(a, (int, str, float, bool)): return a == b
        return False

    def samec(self, a, b):
        if a is b: return True
        if type(a) is not type(b): return False
        if isinstance(a, CList): return a.t == b.t and (a.x is b.x or a.x.eq(b.x))
        if isinstance(a, CPy): return len(a.items) == len(b.items) and all(self.same(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, CSet): return a.t == b.t and (a.arr is b.arr or (a.arr is not None and b.arr is not None and a.arr.eq(b.arr)))
        if isinstance(a, CDict):
            return (a.kt, a.vt) == (b.kt, b.vt) and (a.dom is b.dom or (a.dom is not None and b.dom is not None and a.dom.eq(b.dom) and a.val.eq(b.val)))
        if isinstance(a, View): return self.same(a, b)
        return False

    def ctype(self, c, st):
        if isinstance(c, View): return c.t
        if isinstance(c, CList): return LIST(c.t)
        if isinstance(c, CSet): return SET(c.t)
        if isinstance(c, CDict): return DICT(c.kt, c.vt)
        if isinstance(c, CPy):
            t = UNK
            for x in c.items: t = unify(t, self.typeof(x, st))
            return LIST(t)
        raise Unsupported('loop modifies an object of unknown type')

    def hastunk(self, t):
        return t.k == 'unk' or any(self.hastunk(x) for x in t.a if isinstance(x, Ty))

    def havoc(self, st, mods, keepdom):
        H = st.copy()
        for (kind, a, b), t in mods.items():
            if kind == 'env':
                if t == 'undef': H.envs[a][b] = UNINIT
                elif isinstance(t, tuple): H.envs[a][b] = t[1]
                elif self.hastunk(t): pass
                else: H.envs[a][b] = self.fresh_of(t, H, b)
            elif kind == 'field':
                c = H.heap[a]
                f = dict(c.fields)
                if t == 'undef': f[b] = UNINIT
                elif not self.hastunk(t): f[b] = self.fresh_of(t, H, b)
                H.heap[a] = CObj(c.cls, f)
            else:
                if self.hastunk(t): continue
                old = st.heap[a]
                n = self.from_term(t, self.fresh(sort(t), 'h'))
                if isinstance(n, CDict):
                    d = old.default if isinstance(old, CDict) else None
                    dom = old.dom if a in keepdom and isinstance(old, CDict) and old.kt.k != 'unk' else self.fresh(z3.ArraySort(sort(n.kt), z3.BoolSort()), 'hd')
                    n = CDict(n.kt, n.vt, dom, self.fresh(z3.ArraySort(sort(n.kt), sort(n.vt)), 'hv'), d)
                    if a in keepdom and isinstance(old, CDict): n.enum = old.enum
                elif isinstance(n, CSet):
                    n = CSet(n.t, self.fresh(z3.ArraySort(sort(n.t), z3.BoolSort()), 'hs'))
                H.heap[a] = n
                if self.snaps: self.poison(a, H)
        return H

    def discover(self, st, H, outs, mods, types, fid):
        """adds to mods what the outcomes change with respect to H; True when something new"""
        new = False
        def put(k, t):
            nonlocal new
            o = mods.get(k)
            if o is None or (o != t): 
                mods[k] = t; new = True
        for o in outs:
            for f, env in H.envs.items():
                if f not in o.envs: continue
                for n, v in env.items():
                    w = o.envs[f].get(n, UNINIT)
                    k = ('env', f, n)
                    if self.same(v, w):
                        continue
                    if n in types and f == fid:
                        put(k, types[n]); continue
                    if mods.get(k) == 'undef': continue
                    if v is UNINIT or (isinstance(v, Union) and any(x is UNINIT for _, x in v.alts)):
                        put(k, 'undef'); continue
                    try:
                        t = unify(self.typeof(v, H), self.typeof(w, o))
                    except Unsupported as e:
                        raise Unsupported('loop changes %s: %s' % (n, e))
                    prev = mods.get(k)
                    if prev is not None: t = unify(prev, t)
                    put(k, t)
            for c, h in H.heap.items():
                w = o.heap.get(c)
                if w is None or h is w or c not in st.heap or self.samec(h, w): continue
                if isinstance(h, CObj) and isinstance(w, CObj):
                    for n in set(h.fields) | set(w.fields):
                        a, b = h.fields.get(n, UNINIT), w.fields.get(n, UNINIT)
                        if self.same(a, b): continue
                        k = ('field', c, n)
                        if a is UNINIT:
                            if n not in h.fields: continue
                            put(k, 'undef'); continue
                        t = unify(self.typeof(a, H), self.typeof(b, o))
                        prev = mods.get(k)
                        if prev is not None and prev != 'undef': t = unify(prev, t)
                        put(k, t)
                    continue
                k = ('heap', c, None)
                prev = mods.get(k)
                nm = [n for n, v in H.envs.get(fid, {}).items() if isinstance(v, Ref) and v.c == c and n in types]
                if nm: t = types[nm[0]]
                else:
                    t = unify(self.ctype(h, H), self.ctype(w, o))
                    if prev is not None: t = unify(prev, t)
                put(k, t)
        return new

    def check_alias(self, st, H, outs, mods, fid):
        """rebound containers must not become shared between two havocked places"""
        for o in outs:
            seen = {}
            for (kind, a, b), t in mods.items():
                if kind == 'env' and isinstance(t, Ty):
                    v = o.envs[a].get(b)
                elif kind == 'field' and isinstance(t, Ty):
                    v = o.heap[a].fields.get(b)
                else: continue
                if isinstance(v, Ref):
                    if v.c in seen: raise Unsupported('loop makes %s and %s share a container' % (seen[v.c], b))
                    seen[v.c] = b
            for f, env in H.envs.items():
                for n, v in env.items():
                    if isinstance(v, Ref) and v.c in seen and ('env', f, n) not in mods and v.c in H.heap:
                        w = o.envs[f].get(n)
                        if isinstance(w, Ref) and w.c == v.c: raise Unsupported('loop makes %s and %s share a container' % (seen[v.c], n))

    def cutloop(self, s, st, fid, it, spec):
        invs = spec.inv if spec else []
        types = dict(spec.types) if spec else {}
        if types and self.fnnames(fid):
            types = {self.fnnames(fid).get(k, k): v for k, v in types.items()}
        isfor = it is not None
        label = 'loop at line %d' % s.lineno if not spec or not spec.name else 'loop ' + spec.name
        if spec is None and not self.quiet: self.unmatched.append('%s: loop at line %d has no invariant' % (self.frames[fid][2], s.lineno))
        # the iterated container
        itcell = None
        if isfor and it.seq is not None and isinstance(it.seq, Ref): itcell = it.seq.c
        base = len(st.pc)
        n = zi(it.n) if isfor else None
        def ghost(state, i):
            g = {'$pre': st}
            if isfor:
                g.update({'_i': self.mkint(i), '_n': self.mkint(n), '$it': it})
                if it.kind == 'range': g['_at'] = it.get(i)      # the value the loop variable takes next
            y = state.envs[fid].get('$yield')
            if y is not None: g['_yield'] = y
            return g
        mods = {}
        keepdom = {itcell} if itcell is not None and it.enum else set()
        def run(H, i):
            """one iteration from H -> outcomes, exit condition"""
            b = H.copy()
            if spec and spec.name: b.envs[fid]['$pre_' + spec.name] = st
            if isfor:
                b.assume(And(0 <= i, i < n), True)
                sv, self.cst = self.cst, b
                v = it.get(i)
                self.cst = sv
                if spec and spec.name:
                    b.envs[fid]['_i_' + spec.name] = self.mkint(i)
                    b.envs[fid]['$it_' + spec.name] = it
                self.assign(s.target, v, b, fid)
                return self.block(s.body, b, fid), None
            c = self.cond(s.test, b, fid)
            e = b.copy()
            e.assume(Not(c), True)
            b.assume(c, True)
            z = simp(c) if not z3.is_quantifier(c) else c
            return self.block(s.body, b, fid), (None if z3.is_true(z) else e)
        # loop variables assigned by the target
        for _ in range(8):
            self.quiet += 1
            try:
                H = self.havoc(st, mods, keepdom)
                i = self.fresh(z3.IntSort(), 'i')
                self.assume_inv(invs, H, fid, ghost(H, i), quiet=True)
                outs, _e = run(H, i)
                back = [o[1] for o in outs if o[0] in ('normal', 'continue')]
            finally:
                self.quiet -= 1
            if not self.discover(st, H, back, mods, types, fid): break
        else:
            raise Unsupported('loop state does not stabilise', s)
        # the loop target keeps its name but is reassigned at each head
        self.check_alias(st, H, back, mods, fid)
        if itcell is not None and ('heap', itcell, None) in mods and not it.enum:
            c0 = st.heap[itcell]
            if not (isinstance(c0, CList) and c0.t.k in ('list', 'set', 'dict')):
                raise Unsupported('loop modifies the list it iterates over', s)
        for k, t in mods.items():
            if isinstance(t, Ty) and self.hastunk(t): raise Unsupported('type of %s unknown in loop' % (k[2],), s)
        # 1. entry
        if not self.quiet:
            e0 = st.copy()
            e0 = self.enter_types(e0, mods)
            for k, inv in enumerate(invs):
                f = self.spec_formula(inv, e0, fid, ghost(e0, z3.IntVal(0)))
                self.oblig(e0, f, '%s: invariant %d holds on entry: %s' % (label, k, inv), s)
        # 2. arbitrary iteration
        H = self.havoc(st, mods, keepdom)
        i = self.fresh(z3.IntSort(), 'i') if isfor else None
        if isfor: H.assume(And(0 <= i, i <= n))
        self.assume_inv(invs, H, fid, ghost(H, i))
        dec0 = None
        if not isfor and spec and spec.decreases and not self.quiet:
            dec0 = self.spec_term(spec.decreases, H, fid, ghost(H, i))
        H0 = H
        outs, ex = run(H0, i)
        res, norm = [], []
        if not isfor and not (spec and spec.decreases) and not self.quiet:
            self.notes.add('termination of while loops is not proved (partial correctness)')
        for kind, o, v in outs:
            if kind in ('normal', 'continue'):
                if not self.quiet:
                    o = self.enter_types(o, mods)
                    g = ghost(o, simp(i + 1)) if isfor else ghost(o, None)
                    for k, inv in enumerate(invs):
                        o2 = o.copy()
                        f = self.spec_formula(inv, o2, fid, g)
                        self.oblig(o2, f, '%s: invariant %d preserved: %s' % (label, k, inv), s)
                    if keepdom and ('heap', itcell, None) in mods:
                        c1 = o.heap[itcell]
                        k_ = self.boundv(sort(c1.kt), 'k')
                        self.oblig(o, z3.ForAll([k_], z3.Select(c1.dom, k_) == z3.Select(it.enum[3].dom, k_)), label + ': iterated dictionary keeps its keys', s)
                    if dec0 is not None:
                        d1 = self.spec_term(spec.decreases, o, fid, g)
                        self.oblig(o, And(dec0 >= 0, d1 < dec0), '%s: %s decreases' % (label, spec.decreases), s)
            elif kind == 'break': norm.append(o)
            else: res.append((kind, o, v))
        # 3. exit
        if isfor:
            ex = H0.copy()
            ex.assume(i >= n, True)
            ex.assume(i == n)
            # the target variable keeps its last value
            self.last_target(s.target, it, n, ex, st, fid)
        exits = []
        if ex is not None:
            if s.orelse:
                for kind, o, v in self.block(s.orelse, ex, fid):
                    (exits.append(o) if kind == 'normal' else res.append((kind, o, v)))
            else: exits.append(ex)
        norm = exits + norm
        if self.paths and not self.quiet: res += [('normal', x, None) for x in norm]
        elif len(norm) == 1: res.append(('normal', norm[0], None))
        elif norm: res.append(('normal', self.merge(base, [(x, None) for x in norm])[0], None))
        return res

    def last_target(self, t, it, n, ex, st, fid):
        names = [x.id for x in ast.walk(t) if isinstance(x, ast.Name)]
        c = conc_int(n)
        if c is not None and c <= 0: return
        try:
            e2 = ex.copy()
            sv, self.cst = self.cst, e2
            self.assign(t, it.get(simp(n - 1)), e2, fid)
            self.cst = sv
        except Unsupported:
            for x in names: ex.envs[fid][x] = UNINIT
            return
        ex.heap.update({k: v for k, v in e2.heap.items() if k not in ex.heap})
        for x in names:
            before = st.envs[fid].get(x, UNINIT)
            v = e2.envs[fid].get(x)
            if c is not None and c > 0: ex.envs[fid][x] = v
            elif before is UNINIT: ex.envs[fid][x] = Union([(n > 0, v), (n <= 0, UNINIT)])
            else:
                try: ex.envs[fid][x] = self.mergev([n > 0, n <= 0], [v, before], ex)
                except Unsupported: ex.envs[fid][x] = UNINIT

    def enter_types(self, st, mods):
        """bring empty containers to the element types the loop settles on"""
        for (kind, a, b), t in mods.items():
            if kind == 'heap' and isinstance(t, Ty):
                c = st.heap.get(a)
                if c is None or isinstance(c, View): continue
                try:
                    x = self.pack_content(c, t, st)
                except Unsupported:
                    continue
                n = self.from_term(t, x)
                if isinstance(n, CDict): n.default = c.default if isinstance(c, CDict) else None
                if (isinstance(c, CDict) and c.kt.k == 'unk') or (isinstance(c, CSet) and c.t.k == 'unk') or isinstance(c, CPy) or (isinstance(c, CList) and c.t.k == 'unk'):
                    st.heap[a] = n
        return st

    def assume_inv(self, invs, st, fid, ghost, quiet=False):
        for inv in invs:
            try:
                f = self.spec_formula(inv, st, fid, ghost)
            except Unsupported:
                if quiet: continue
                raise
            st.assume(f)
