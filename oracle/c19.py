from .core import *
from collections import Counter
from soynlp.utils import LRGraph


def view(m):
    return {k: v for k, v in m.items() if v > 0}


def consistent(g, e, words, ctx, topk):
    L, R = Counter(), Counter()
    for w in words:
        for r, c in g.get_r(w, topk=-1):
            if c <= 0: return '%s: count %r of (%r, %r)' % (ctx, c, w, r)
            if (w, r) in L: return '%s: (%r, %r) listed twice' % (ctx, w, r)
            L[w, r] = c
        for l, c in g.get_l(w, topk=-1):
            if c <= 0: return '%s: count %r of (%r, %r)' % (ctx, c, l, w)
            R[l, w] = c
        for f in (g.get_r, g.get_l):
            a = f(w, topk=-1)
            cs = [c for _, c in a]
            if cs != sorted(cs, reverse=True): return '%s: %s(%r) = %r is not in non-increasing order' % (ctx, f.__name__, w, a)
            b = f(w, topk=topk) if topk else f(w)
            if list(b) != a[:topk or 10]: return '%s: %s(%r, topk=%r) = %r of %r' % (ctx, f.__name__, w, topk or 10, b, a)
    if dict(L) != e: return '%s: counts from the left %r, not %r' % (ctx, dict(L), e)
    if dict(R) != {k: c for k, c in e.items() if k[1]}: return '%s: counts from the right %r, from the left %r' % (ctx, dict(R), e)
    lr, rl = getattr(g, '_lr', None), getattr(g, '_rl', None)
    if lr is not None and rl is not None:
        if any(not d for d in lr.values()) or any(not d for d in rl.values()): return '%s: empty row in %r %r' % (ctx, lr, rl)
        if {(l, r): c for l, d in lr.items() for r, c in d.items()} != e or {(l, r): c for r, d in rl.items() for l, c in d.items()} != {k: c for k, c in e.items() if k[1]}:
            return '%s: stored rows %r %r, not %r' % (ctx, lr, rl, e)


def check(case):
    lm, rm = case['lm'], case['rm']
    given = None
    if case['from'] == 'dict':
        given = {}
        for l, r, c in case['init']: given.setdefault(l, {})[r] = c
        g = LRGraph(lrgraph=given, l_max_length=lm, r_max_length=rm)
        e = {(l, r): c for l, d in given.items() for r, c in d.items()}
    elif case['from'] == 'sents':
        g = LRGraph(sents=list(case['sents']), l_max_length=lm, r_max_length=rm)
        e = Counter()
        for w in ' '.join(case['sents']).split():
            for i in range(1, min(lm, len(w)) + 1):
                if len(w) - i <= rm: e[w[:i], w[i:]] += 1
        e = dict(e)
    else:
        g = LRGraph(l_max_length=lm, r_max_length=rm); e = {}
    snap = copy.deepcopy(given)
    origin = dict(e)
    words = {x for k in e for x in k} | {''} | {'zz'}
    for o in case['ops']:
        if o[0] in ('add', 'rem'): words |= {o[1], o[2]}
        else: words |= {o[1][:i] for i in range(len(o[1]) + 1)} | {o[1][i:] for i in range(len(o[1]) + 1)}
    log = ['from %s %r' % (case['from'], case['init'] if case['from'] == 'dict' else case['sents'])]
    m = consistent(g, e, words, str(log), 0)
    if m: return m
    copies = []
    for o in case['ops']:
        k, a, b, n, t = o
        log.append((k, a, b, n))
        if k == 'add': g.add_lr_pair(a, b, n); e[a, b] = e.get((a, b), 0) + n
        elif k == 'rem': g.remove_lr_pair(a, b, n); e[a, b] = e.get((a, b), 0) - n
        elif k in ('adde', 'reme'):
            (g.add_eojeol if k == 'adde' else g.remove_eojeol)(a, n)
            for i in range(1, len(a) + 1): e[a[:i], a[i:]] = e.get((a[:i], a[i:]), 0) + (n if k == 'adde' else -n)
        elif k == 'reset': g.reset_lrgraph(); e = dict(origin)
        elif k == 'copy':
            c = g.copy_compatified_lrgraph_origin()
            m = consistent(c, origin, words, 'copy after %r' % log, t)
            if m: return m
            copies.append((c, dict(origin), len(log)))
            if n % 2 and len(copies) > 1:      # changing a copy must not change the graph
                x, y, z = copies.pop(0); x.add_lr_pair(a, b, 3); x.remove_eojeol(a + b, 9)
        elif k == 'load':
            p = os.path.join(os.environ['ORACLE_TMP'], 'g.txt')
            g.save(p); g.load(p); e = dict(origin)
        e = view(e)
        m = consistent(g, e, words, 'history %r' % log, t)
        if m: return m
        if snap != given: return 'history %r changes the given dictionary from %r to %r' % (log, snap, given)
        for c, x, z in copies:
            m = consistent(c, x, words, 'copy made after step %d of %r' % (z - 1, log), 0)
            if m: return m


def gen(rng, lits):
    ab = [char(rng, lits) for _ in range(rng.choice([1, 2, 3]))]
    ab = [c for c in ab if c.split()] or ['a']
    ws = [word(rng, lits, ab, rng.choice([1, 1, 2, 3, 4])) for _ in range(4)]
    kind = rng.choice(['dict', 'dict', 'sents', 'none'])
    init = [[rng.choice(ws), rng.choice(ws + ['']), rng.randint(1, 4)] for _ in range(rng.randint(0, 6))] if kind == 'dict' else []
    S = [' '.join(rng.choice(ws) for _ in range(rng.randint(0, 4))) for _ in range(rng.randint(0, 3))] if kind == 'sents' else []
    ops = [[rng.choices(['add', 'rem', 'adde', 'reme', 'reset', 'copy', 'load'], [4, 5, 2, 2, 1, 1, 1])[0], rng.choice(ws), rng.choice(ws + ['']), rng.randint(1, 3), rng.choice([0, 1, 2, 3])] for _ in range(rng.randint(0, 10))]
    return {'from': kind, 'init': init, 'sents': S, 'ops': ops, 'lm': rng.choice([10, 2, 3]), 'rm': rng.choice([9, 1, 2])}


OPS = ('add', 'rem', 'adde', 'reme', 'reset', 'copy', 'load')
def valid(c):
    ok = lambda w: w == ''.join(w.split())
    return (c['from'] in ('dict', 'sents', 'none') and c['lm'] >= 2 and c['rm'] >= 1 and all(l and ok(l) and ok(r) and n >= 1 for l, r, n in c['init'])
            and all(o[0] in OPS and o[1] and ok(o[1]) and ok(o[2]) and o[3] >= 1 for o in c['ops']))
def trivial(c): return not c['ops'] and not c['init']
