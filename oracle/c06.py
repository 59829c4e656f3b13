from .core import *
from soynlp.tokenizer import MaxScoreTokenizer


def greedy(t, recs, sc, ds, ml):
    """a candidate that was not chosen and overlaps no chosen piece of at least its rank"""
    n = len(t)
    R = min(ml, n)
    ch = [(r[1], r[2]) for r in recs]
    chosen = set(ch)
    owner = [0] * n
    for k, (b, e) in enumerate(ch):
        for i in range(b, e): owner[i] = k
    rank = lambda b, e: (-sc.get(t[b:e], ds), -(e - b), b)
    rk = [rank(b, e) if 2 <= e - b <= R else (float('inf'),) for b, e in ch]
    for b in range(n - 1):
        for e in range(b + 2, min(n, b + R) + 1):
            if (b, e) in chosen: continue
            k = rank(b, e)
            if not any(rk[j] <= k for j in range(owner[b], owner[e - 1] + 1)): return b, e


def check(case):
    sc = {w: s for w, s in case['scores']}
    ds, ml, s = case['ds'], case['max'], case['s']
    t = MaxScoreTokenizer(scores=dict(sc), max_length=ml, default_score=ds)
    r = t.tokenize(s, flatten=False)
    toks = s.split()
    ctx = 'scores %r, default %r, max_length %r: tokenize(%r, flatten=False)' % (sc, ds, ml, s)
    if len(r) != len(toks): return '%s has %d tokens' % (ctx, len(r))
    for k, recs in zip(toks, r):
        p = 0
        for w, b, e, x, n in recs:
            if b != p or not b < e <= len(k) or w != k[b:e] or n != e - b: return '%s: record %r of %r does not continue at %d' % (ctx, (w, b, e, x, n), k, p)
            if x != sc.get(w, ds): return '%s: record %r has score %r, given %r' % (ctx, (w, b, e, x, n), x, sc.get(w, ds))
            p = e
        if p != len(k): return '%s: pieces %r cover only %d characters of %r' % (ctx, recs, p, k)
        if 2 < len(k) <= 200:
            g = greedy(k, recs, sc, ds, ml)
            if g: return '%s: candidate %r of %r is not chosen although it outranks everything it overlaps' % (ctx, k[g[0]:g[1]], k)
    f = t.tokenize(s)
    x = [q[0] for recs in r for q in recs]
    if f != x or t(s) != x: return '%s: flattened %r' % (ctx, f)
    if t.tokenize(s, flatten=False) != r: return '%s differs on another call' % ctx


def gen(rng, lits):
    ab = [char(rng, lits) for _ in range(rng.choice([1, 2, 3, 6]))]
    k = rng.random()
    s = sentence(rng, lits, rng.choice([None, 5, 10, 25]), ab) if k < .985 else text(rng, lits, ab, rng.choice([60, 150, 200, 230, 420]), spaces=.002)
    sc = {}
    for t in s.split():
        sub = subs(t[:14], 1, 6)
        for w in rng.sample(sub, min(len(sub), rng.choice([0, 1, 3, 8]))): sc[w] = rng.choice([0.0, 1.0, .5, .25, .75, -1.0, -.5, 2.0])
    return {'s': s, 'scores': [[w, x] for w, x in sc.items()], 'ds': rng.choice([0.0, 0.0, 0.0, .5, -1.0, 1.0]), 'max': rng.choice([10, 10, 2, 3, 5, 12])}


def valid(c): return c['max'] >= 2 and all(isinstance(x, (int, float)) for _, x in c['scores'])
def trivial(c): return not any(len(t) > 2 for t in c['s'].split())
