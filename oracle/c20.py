from .core import *
from collections import Counter
from soynlp.utils import EojeolCounter, LRGraph
from .c18 import graph, lr


def check(case):
    T = os.environ['ORACLE_TMP']
    cnt = {w: n for w, n in case['counter']}
    S = [' '.join([w] * n) for w, n in cnt.items()] or ['']
    c = EojeolCounter(S, max_length=500)
    if dict(c.items()) != cnt: return 'counter of %r is %r' % (cnt, dict(c.items()))
    p = os.path.join(T, *case['path'])
    for same in (False, True):
        c.save(p)
        d = c if same else EojeolCounter()
        d.load(p)
        if dict(d.items()) != cnt or d.num_of_uncovered_eojeols != sum(cnt.values()): return 'counter %r: saved and loaded %r' % (cnt, dict(d.items()))
        if cnt:
            k = sorted(cnt)[0]
            d2 = EojeolCounter(); d2.load(p); d2.remove_covered_eojeols({k})
            if abs(d2.coverage - cnt[k] / sum(cnt.values())) > 1e-9: return 'counter %r, loaded: coverage %r after removing %r' % (cnt, d2.coverage, k)
    given = {}
    for l, r, n in case['graph']: given.setdefault(l, {})[r] = n
    e = {(l, r): n for l, x in given.items() for r, n in x.items()}
    g = LRGraph(lrgraph=copy.deepcopy(given))
    for l, r in case['changes']: g.add_lr_pair(l, r, 2)     # (save keeps the graph as constructed)
    q = os.path.join(T, 'graph.txt')
    g.save(q)
    for h in (LRGraph(), LRGraph(lrgraph={'x': {'y': 1}}), g):
        h.load(q)
        m = graph(h, 'graph %r, saved and loaded' % given, e)
        if m: return m
        h.add_lr_pair('k', 'k'); h.reset_lrgraph()
        m = graph(h, 'graph %r, saved, loaded and reset' % given, e)
        if m: return m
    # conversions
    lm, rm = case['lm'], case['rm']
    G = c.to_lrgraph(lm, rm)
    b = G.to_EojeolCounter()
    keep = {w: n for w, n in cnt.items() if any(len(w) - i <= rm for i in range(1, min(lm, len(w)) + 1))}
    if dict(b.items()) != keep: return 'counter %r to graph (%d, %d) and back: %r' % (cnt, lm, rm, dict(b.items()))
    if b.num_of_uncovered_eojeols != sum(keep.values()): return 'counter %r to graph and back: total %r' % (cnt, b.num_of_uncovered_eojeols)
    G.add_lr_pair('k', 'z', 5)
    b = G.to_EojeolCounter(reset_lrgraph=True)
    if dict(b.items()) != keep: return 'counter %r to graph and back from its origin: %r' % (cnt, dict(b.items()))
    G.reset_lrgraph()
    m = graph(G, 'counter %r to graph (%d, %d)' % (cnt, lm, rm), lr(cnt, lm, rm, False))
    if m: return m


def fixed(lits):
    # wide rows and many words: sizes around the numbers in the source and the default lengths
    for m in sorted({9, 10, 11, 81, 82, 99, 100, 101, 257, 1025} | {k + 1 for k in lits.nums if k <= 3000}):
        ws = ['%x' % i for i in range(m)]
        yield {'counter': [[x, 1 + i % 3] for i, x in enumerate(ws)], 'graph': [['a', x, 1 + i % 3] for i, x in enumerate(ws)] + [[x, 'b', 2] for x in ws[:50]], 'changes': [], 'path': ['c.txt'], 'lm': 10, 'rm': 9}
        yield {'counter': [['a' + x, 1] for x in ws], 'graph': [[x, '', 1 + i % 12] for i, x in enumerate(ws)], 'changes': [['a', 'b']], 'path': ['sub', 'c.txt'], 'lm': 2, 'rm': 3}


def gen(rng, lits):
    ab = [char(rng, lits) for _ in range(rng.choice([1, 2, 3, 8]))]
    ab = [c for c in ab if c.split()] or ['a']
    ws = sorted({word(rng, lits, ab, rng.choice([1, 1, 2, 3, 4, 8, 12, 25])) for _ in range(rng.choice([1, 3, 6]))})
    cnt = [[w, rng.choice([1, 2, 3, 11])] for w in ws]
    if rng.random() < .1: cnt = []
    gr = {(rng.choice(ws), rng.choice(ws + [''])): rng.randint(1, 30) for _ in range(rng.choice([0, 1, 4, 8]))}
    return {'counter': cnt, 'graph': [[l, r, n] for (l, r), n in gr.items()], 'changes': [[rng.choice(ws), rng.choice(ws)]] if rng.random() < .4 else [],
            'path': rng.choice([['c.txt'], ['sub', 'c.txt']]), 'lm': rng.choice([10, 2, 3]), 'rm': rng.choice([9, 1, 2])}


def valid(c):
    ok = lambda w: w == ''.join(w.split())
    return (all(w and ok(w) and n >= 1 for w, n in c['counter']) and len({w for w, _ in c['counter']}) == len(c['counter']) and all(l and ok(l) and ok(r) and n >= 1 for l, r, n in c['graph'])
            and all(len(x) == 2 and x[0] and ok(x[0]) and ok(x[1]) for x in c['changes']) and c['path'] in (['c.txt'], ['sub', 'c.txt']) and c['lm'] >= 2 and c['rm'] >= 1)
def trivial(c): return not c['counter']
