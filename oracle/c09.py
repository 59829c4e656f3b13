from .core import *
from soynlp.tokenizer import MaxLRScoreTokenizer


def check(case):
    s = case['s']
    Dl, Dr, Pl, Pr = ({w: x for w, x in case[k]} for k in ('dl', 'dr', 'pl', 'pr'))
    R = set(Dr) | set(Pr)
    ctx = 'Dl=%r Dr=%r preference_l=%r preference_r=%r: tokenize(%r)' % (Dl, Dr, Pl, Pr, s)
    conv = (lambda d: set(d)) if case['sets'] else dict
    kw = dict(case['kw'])
    t = MaxLRScoreTokenizer(Dl=conv(Dl), Dr=conv(Dr), preference_l=dict(Pl), preference_r=dict(Pr), **kw)
    nest = t.tokenize(s, flatten=False)
    toks = s.split()
    if len(nest) != len(toks): return ctx + ' has %d eojeols' % len(nest)
    for k, ws in zip(toks, nest):
        if ''.join(w for w, _ in ws) != k: return '%s: %r gives %r' % (ctx, k, ws)
        for w, l in ws:
            if not w or l not in ('L', 'R'): return '%s: piece %r' % (ctx, (w, l))
            if l == 'R' and w not in R: return '%s: %r is labelled R but not in the dictionary' % (ctx, w)
    recs = t.tokenize(s, debug=True, flatten=False)
    for k, rs in zip(toks, recs):
        p = 0
        for r in rs:
            l, rr, b, m, e = r[:5]
            if b != p or not b <= m <= e or k[b:m] != l or k[m:e] != rr or e <= b: return '%s: record %r of %r does not continue at %d' % (ctx, r[:8], k, p)
            if tuple(r[5:8]) != (m - b, e - m, e - b): return '%s: lengths of record %r' % (ctx, r[:8])
            if rr and rr not in R: return '%s: right part %r not in the dictionary' % (ctx, rr)
            p = e
        if p != len(k): return '%s: records %r cover %d characters of %r' % (ctx, rs, p, k)
    f = t.tokenize(s)
    if f != [w for ws in nest for w in ws]: return '%s flattened %r, nested %r' % (ctx, f, nest)


def gen(rng, lits):
    ab = [char(rng, lits) for _ in range(rng.choice([1, 2, 3, 6]))]
    s = sentence(rng, lits, rng.choice([None, 5, 10, 16]), ab)[:40]
    d = {k: {} for k in ('dl', 'dr', 'pl', 'pr')}
    for t in s.split():
        sub = subs(t[:12], 1, 5)
        for k, n in (('dl', 4), ('dr', 4), ('pl', 1), ('pr', 1)):
            for w in rng.sample(sub, min(len(sub), rng.randint(0, n))): d[k][w] = rng.choice([0.0, 1.0, .5, .25, .75, .1, .9, 2.0, .4])
    for k in d:
        if rng.random() < .25: d[k] = {}
    kw = {} if rng.random() < .7 else {'max_lscore_difference': rng.choice([0., .3, .6]), 'max_lscore_diffratio': rng.choice([.2, .5, .9]), 'ensurable_score_l': rng.choice([.1, .5, .9]), 'ensurable_score_lr_diff': rng.choice([0., .3, .7])}
    return {'s': s, 'sets': rng.random() < .2, 'kw': kw, **{k: [[w, x] for w, x in v.items()] for k, v in d.items()}}


def valid(c): return all(w and isinstance(x, (int, float)) and x >= 0 for k in ('dl', 'dr', 'pl', 'pr') for w, x in c[k]) and all(isinstance(x, float) for x in c['kw'].values())
def trivial(c): return not c['s'].split() or not (c['dl'] or c['dr'])
