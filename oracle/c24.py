from .core import *
from collections import Counter
from soynlp.word import Bigram
TOK = {'default': None, 'chars': lambda x: list(''.join(x.split())), 'tuple': lambda x: [t[:2] for t in x.split()]}


def check(case):
    sents, mf, tok = case['sents'], case['min_frequency'], TOK[case['tok']]
    b = Bigram(min_frequency=mf, verbose=False, filtering_checkpoint=case['cp'], **({} if tok is None else {'tokenizer': tok}))
    b.train(iter(sents) if case['iter'] else list(sents))
    f = tok or str.split
    c = Counter(p for s in sents for ws in [f(s)] for p in zip(ws, ws[1:]))
    exp = {p: n for p, n in c.items() if n >= mf}
    ctx = 'min_frequency %r, tokenizer %s, trained on %r' % (mf, case['tok'], sents)
    got = dict(priv(b, '_counter'))
    if got != exp: return '%s: counts %r, not %r' % (ctx, got, exp)
    for th in case['ths']:
        e = {p: n for p, n in exp.items() if n >= th}
        for kw in ({}, {'topk': 3}):
            r = b.extract(threshold=th, **kw)
            if {p: s[0] for p, s in r.items()} != e or any(s[1] != s[0] for s in r.values()): return '%s: extract(threshold=%r%s) = %r, not %r' % (ctx, th, ', topk=3' if kw else '', r, e)


def gen(rng, lits):
    ab = [char(rng, lits) for _ in range(rng.choice([1, 2, 3]))]
    ws = [word(rng, lits, ab, rng.randint(1, 3)) for _ in range(rng.choice([1, 2, 3, 5]))]
    sents = [' '.join(rng.choice(ws) for _ in range(rng.choice([0, 1, 2, 3, 6, 12]))) for _ in range(rng.choice([0, 1, 2, 4, 8]))]
    return {'sents': sents, 'min_frequency': rng.choice([1, 1, 2, 3, 5]), 'ths': [rng.choice([0, 1, 2, 3, 4, 7])], 'tok': rng.choice(list(TOK)), 'iter': rng.random() < .3, 'cp': rng.choice([0, 0, 100000])}


def valid(c): return c['tok'] in TOK and c['min_frequency'] >= 0 and c['cp'] in (0, 100000)
def trivial(c): return not any(len(s.split()) > 1 for s in c['sents'])
