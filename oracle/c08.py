from .core import *
from soynlp.tokenizer import NounLMatchTokenizer, NounMatchTokenizer, MaxScoreTokenizer


def lmatch(t, nouns):
    out, p = [], 0
    while p < len(t):
        for e in range(len(t), p, -1):
            if t[p:e] in nouns: break
        else: break
        out.append(t[p:e]); p = e
    return out


def check(case):
    s = case['s']
    sc = {w: x for w, x in case['scores']}
    nouns = set(sc)
    for coll in (set(nouns), dict(sc), sorted(nouns)):
        t = NounLMatchTokenizer(coll)
        e = [lmatch(k, nouns) for k in s.split()]
        a = [''.join(x) for x in e if x]
        b = [w for x in e for w in x]
        r = t.tokenize(s); r2 = t.tokenize(s, compose_compound=False)
        if r != a: return 'nouns %r: tokenize(%r) = %r, not %r' % (sorted(nouns), s, r, a)
        if r2 != b: return 'nouns %r: tokenize(%r, compose_compound=False) = %r, not %r' % (sorted(nouns), s, r2, b)
    m = NounMatchTokenizer(dict(sc))
    base = MaxScoreTokenizer(scores=dict(sc)).tokenize(s, flatten=False)
    plain = m.tokenize(s, flatten=False, compose_compound=False)
    comp = m.tokenize(s, flatten=False, compose_compound=True)
    ctx = 'noun scores %r: tokenize(%r' % (sc, s)
    toks = s.split()
    if len(plain) != len(toks) or len(comp) != len(toks): return ctx + '): number of eojeols differs'
    for k, ps, cs, bs in zip(toks, plain, comp, base):
        pos = [tuple(w) for w in bs if w[3] > 0]
        if [tuple(w) for w in ps] != pos: return '%s, compose_compound=False): %r gives %r, pieces of positive score %r' % (ctx, k, ps, pos)
        end = 0
        for w, b, e, x, n in ps:
            if not end <= b < e <= len(k) or w != k[b:e] or n != e - b or x != sc.get(w, 0) or x <= 0: return '%s, compose_compound=False): record %r of %r' % (ctx, (w, b, e, x, n), k)
            end = e
        exp = []
        for w, b, e, x, n in pos:
            if exp and exp[-1][2] == b: exp[-1] = (k[exp[-1][1]:e], exp[-1][1], e, max(exp[-1][3], x), e - exp[-1][1])
            else: exp.append((w, b, e, x, n))
        if [tuple(w) for w in cs] != exp: return '%s): %r gives %r, not the runs %r' % (ctx, k, cs, exp)
    for c, rs in ((True, comp), (False, plain)):
        f = m.tokenize(s, flatten=True, compose_compound=c)
        if f != [w[0] for ws in rs for w in ws]: return '%s, compose_compound=%r) = %r' % (ctx, c, f)


def gen(rng, lits):
    ab = [char(rng, lits) for _ in range(rng.choice([1, 2, 3, 6]))]
    s = sentence(rng, lits, rng.choice([None, 5, 10, 25]), ab)
    sc = {}
    for t in s.split():
        sub = subs(t[:14], 1, 5)
        for w in rng.sample(sub, min(len(sub), rng.choice([0, 1, 3, 8]))): sc[w] = rng.choice([0.0, 1.0, .5, .25, -1.0, 2.0, 1.0])
        if rng.random() < .4: sc[t[:rng.randint(1, len(t))]] = rng.choice([1.0, .5])
    return {'s': s, 'scores': [[w, x] for w, x in sc.items()]}


def valid(c): return all(w and isinstance(x, (int, float)) for w, x in c['scores'])
def trivial(c): return not c['scores'] or not c['s'].split()
