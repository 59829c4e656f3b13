from .core import *
from soynlp.noun import _noun_postprocessing as P
from soynlp.noun import LRNounExtractor_v2
from soynlp.tokenizer import MaxScoreTokenizer
from soynlp.utils import LRGraph
import logging


def sub(ctx, name, nouns, got, removed, exact=None):
    if exact is not None and set(removed) != exact: return '%s: %s removes %r, not %r' % (ctx, name, sorted(removed), sorted(exact))
    if set(got) & set(removed) or set(got) | set(removed) != set(nouns): return '%s: %s keeps %r and removes %r' % (ctx, name, sorted(got), sorted(removed))
    for w in got:
        if got[w] != nouns[w]: return '%s: %s changes the score of %r to %r' % (ctx, name, w, got[w])


def check(case):
    nouns = {w: tuple(s) for w, s in case['nouns']}
    orig = dict(nouns)
    feats = set(case['features'])
    ctx = 'nouns %r, features %r' % (nouns, sorted(feats))
    det = {w for w in nouns if any(w[:e] in nouns and w[e:] in feats for e in range(2, len(w) - 1))}
    ign = {w for w in nouns if w in feats}
    for name, exact in (('detaching_features', det), ('ignore_features', ign)):
        f = priv(P, name)
        for log in (None, os.path.join(os.environ['ORACLE_TMP'], 'log')):
            got, rem = f(nouns, feats, log)
            m = sub(ctx, name, orig, got, rem, exact)
            if m: return m
            if nouns != orig: return '%s: %s changes its argument' % (ctx, name)
    f = priv(P, 'check_N_is_NJ')
    josa = sorted(priv(P, 'josaset'))
    rows = {l: {r: 1 for r in josa[:k]} for l, k in case['rows']}
    got, rem = f(nouns, LRGraph(lrgraph=rows), 5)
    m = sub(ctx, 'check_N_is_NJ', orig, got, rem)
    if m: return m
    suf = priv(P, 'suffixset')
    for w in rem:
        if not any(w[i:] in josa and w[i:] not in suf and w[:i] in nouns and nouns[w][0] < nouns[w[:i]][0] for i in range(2, len(w))): return '%s: check_N_is_NJ removes %r' % (ctx, w)
    # compounds
    ex = object.__new__(LRNounExtractor_v2)
    ex._compound_decomposer = MaxScoreTokenizer(scores=dict(case['scores']))
    ex._pos_features = feats
    for w in case['words']:
        r = ex.decompose_compound(w)
        toks = ex._compound_decomposer.tokenize(w, flatten=False)[0]
        pc = priv(ex, '_parse_compound')(toks)
        c2 = 'scores %r, particles %r' % (case['scores'], sorted(feats))
        body = toks[:-1] if len(toks) >= 3 and toks[-1][0] in feats else toks
        exp = tuple(t[0] for t in body) if all(t[3] > 0 for t in body) else None
        if (tuple(pc) if pc else None) != exp: return '%s: _parse_compound(%r) = %r, not %r' % (c2, toks, pc, exp)
        if tuple(r) != (exp or (w,)): return '%s: decompose_compound(%r) = %r, not %r' % (c2, w, r, exp or (w,))


def gen(rng, lits):
    J = list('은는이가을를의') + ['에서', '으로', '까지', '에게', '부터', '이다']
    ab = [char(rng, lits) for _ in range(rng.choice([1, 2, 3]))] + list('가')
    base = [word(rng, lits, ab, rng.randint(1, 4)) for _ in range(rng.choice([2, 4, 7]))]
    feats = [rng.choice(J) if rng.random() < .5 else rng.choice(base)[:rng.randint(1, 3)] for _ in range(rng.choice([0, 1, 3, 6]))]
    ws = list(base)
    for _ in range(rng.choice([0, 3, 6])): ws.append(rng.choice(base) + rng.choice(feats + J))
    nouns = [[w, [rng.choice([1, 2, 5, 10]), score(rng)]] for w in ws]
    rows = [[w, rng.choice([0, 4, 5, 6, 20])] for w in ws if rng.random() < .7]
    words = [''.join(rng.choice(base) for _ in range(rng.randint(1, 4))) + (rng.choice(feats + J) if rng.random() < .5 else '') for _ in range(3)]
    return {'nouns': nouns, 'features': feats, 'rows': rows, 'scores': [[w, score(rng)] for w in base], 'words': words}


def valid(c): return all(len(w) and len(s) == 2 for w, s in c['nouns']) and all(w and not any(x.isspace() for x in w) for w in c['words']) and all(len(r) == 2 and r[0] for r in c['rows']) and all(len(r) == 2 for r in c['scores'])
def trivial(c): return not c['features']
