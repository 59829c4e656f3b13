from .core import *
from soynlp.tokenizer import LTokenizer


def split(t, sc, ds, tol):
    if len(t) <= 2: return (t, '')
    S = lambda e: sc.get(t[:e], ds)
    es = range(2, len(t) + 1)
    m = max(map(S, es))
    if tol > 0: e = max(e for e in es if m - S(e) <= tol)
    else: e = max(e for e in es if S(e) == m)
    return (t[:e], t[e:])


def check(case):
    sc = {w: s for w, s in case['scores']}
    ds, tol, s = case['ds'], case['tol'], case['s']
    t = LTokenizer(scores=dict(sc), default_score=ds)
    e = [split(x, sc, ds, tol) for x in s.split()]
    fl = [p for lr in e for p in lr if p]
    L = [lr[0] for lr in e]
    for f in (True, False):
        for rr in (False, True):
            for how in (t, t.tokenize):
                r = how(s, tolerance=tol, flatten=f, remove_r=rr)
                x = L if rr else fl if f else e
                r = [tuple(p) if isinstance(p, (list, tuple)) else p for p in r]
                if r != x: return 'scores %r, default %r: tokenize(%r, tolerance=%r, flatten=%r, remove_r=%r) = %r, not %r' % (sc, ds, s, tol, f, rr, r, x)
    r = t.tokenize(s)
    x = [p for lr in [split(x, sc, ds, 0) for x in s.split()] for p in lr if p]
    if r != x: return 'scores %r, default %r: tokenize(%r) = %r, not %r' % (sc, ds, s, r, x)


def gen(rng, lits):
    ab = [char(rng, lits) for _ in range(rng.choice([1, 2, 3, 6]))]
    s = sentence(rng, lits, rng.choice([None, 5, 12, 30]), ab)
    toks = s.split()
    sc = {}
    for t in toks:
        for e in range(1, len(t) + 1):
            if rng.random() < .4: sc[t[:e]] = rng.choice([0.0, 1.0, .5, .25, .75, -1.0, -.5, 2.0])
        if rng.random() < .3: sc[t[rng.randrange(len(t)):]] = 1.0
    return {'s': s, 'scores': [[w, x] for w, x in sc.items()], 'ds': rng.choice([0.0, 0.0, .5, -1.0, 1.0, .25]), 'tol': rng.choice([0.0, 0.0, .25, .5, 1.0, -.5, 3.0, .125])}


def valid(c): return all(isinstance(x, (int, float)) and (x * 64) % 1 == 0 for _, x in c['scores']) and (c['tol'] * 64) % 1 == 0 and (c['ds'] * 64) % 1 == 0
def trivial(c): return not any(len(t) > 2 for t in c['s'].split())
