from .core import *
from collections import Counter
from soynlp.utils import EojeolCounter, LRGraph
PRE = {'id': None, 'rev': lambda s: s[::-1], 'dup': lambda s: s + ' ' + s}


def lr(cnt, lm, rm, ig):
    g = Counter()
    for w, c in cnt.items():
        if ig and len(w) == 1: continue
        for e in range(1, min(lm, len(w)) + 1):
            if len(w) - e <= rm: g[w[:e], w[e:]] += c
    return g


def graph(g, ctx, e):
    """the public view of a graph against the expected counts {(l, r): c}"""
    ls, rs = {l for l, _ in e}, {r for _, r in e if r}
    for l in ls | rs | {'가'}:
        x = {r: c for (a, r), c in e.items() if a == l}
        y = dict(g.get_r(l, topk=-1))
        if x != y: return '%s: from left part %r: %r, not %r' % (ctx, l, y, x)
        x = {a: c for (a, r), c in e.items() if r == l}
        y = dict(g.get_l(l, topk=-1))
        if x != y: return '%s: from right part %r: %r, not %r' % (ctx, l, y, x)
    G = getattr(g, '_lr', None)
    if G is not None and {(l, r): c for l, d in G.items() for r, c in d.items()} != dict(e): return '%s: stored counts %r, not %r' % (ctx, G, dict(e))


def check(case):
    S = case['sents']
    pre = PRE[case['pre']]
    kw = {'min_count': case['min'], 'max_length': case['max']}
    c = EojeolCounter(list(S), preprocess=pre, **kw)
    full = Counter(w for s in S for w in (pre(s) if pre else s).split() if len(w) <= case['max'])
    e = {w: n for w, n in full.items() if n >= case['min']}
    ctx = 'EojeolCounter(%r, %s, preprocess=%s)' % (S, kw, case['pre'])
    if dict(c.items()) != e: return '%s counts %r, not %r' % (ctx, dict(c.items()), e)
    if len(c) != len(e) or c.num_of_uncovered_eojeols != sum(e.values()) or c.num_of_unique_uncovered_eojeols != len(e): return ctx + ': totals differ'
    for w in list(full) + ['zz']:
        if c[w] != e.get(w, 0) or c.get_eojeol_count(w) != e.get(w, 0): return '%s: count of %r' % (ctx, w)
    for m in (0, 2, 3):
        if dict(c.get_uncovered_eojeols(m)) != {w: n for w, n in e.items() if n >= m}: return '%s: get_uncovered_eojeols(%d) = %r' % (ctx, m, c.get_uncovered_eojeols(m))
    for lm, rm, ig in case['graphs']:
        g = c.to_lrgraph(lm, rm, ig)
        m = graph(g, '%s.to_lrgraph(%d, %d, %r)' % (ctx, lm, rm, ig), lr(e, lm, rm, ig))
        if m: return m
    if c.coverage != 0: return ctx + ': coverage %r' % c.coverage
    tot = sum(e.values())
    left = dict(e)
    if tot:
        for ws in case['cover']:
            c.remove_covered_eojeols(set(ws) if len(ws) % 2 else list(ws))
            left = {w: n for w, n in left.items() if w not in ws}
            if dict(c.items()) != left: return '%s: after removing %r: %r, not %r' % (ctx, ws, dict(c.items()), left)
            x = 1 - sum(left.values()) / tot
            if not 0 <= c.coverage <= 1 or abs(c.coverage - x) > 1e-12: return '%s: coverage %r after removing %r, not %r' % (ctx, c.coverage, ws, x)
    for v in (-.1, 1.5):
        try: c.coverage = v
        except ValueError: continue
        return '%s: coverage accepts %r' % (ctx, v)


def gen(rng, lits):
    ab = [char(rng, lits) for _ in range(rng.choice([1, 2, 3]))]
    ws = [word(rng, lits, ab, rng.choice([1, 1, 2, 3, 4, 6, 12, 16, 21])) for _ in range(rng.choice([1, 3, 6]))]
    S = [rng.choice([' ', '  ', '\t']).join(rng.choice(ws) for _ in range(rng.choice([0, 1, 3, 8]))) for _ in range(rng.choice([1, 2, 5]))]
    return {'sents': S, 'pre': rng.choice(['id', 'id', 'rev', 'dup']), 'min': rng.choice([0, 1, 1, 2, 3, 5]), 'max': rng.choice([15, 15, 1, 2, 4, 30]),
            'graphs': [[rng.choice([10, 2, 3, 25]), rng.choice([9, 1, 2, 25]), rng.random() < .5] for _ in range(2)],
            'cover': [rng.sample(ws, rng.randint(0, min(2, len(ws)))) + [word(rng, lits)][:rng.randint(0, 1)] for _ in range(rng.randint(1, 3))]}


def valid(c): return c['sents'] and c['pre'] in PRE and all(len(g) == 3 and g[0] >= 2 and g[1] >= 1 for g in c['graphs'])
def trivial(c): return not any(s.split() for s in c['sents'])
