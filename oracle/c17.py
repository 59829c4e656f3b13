from .core import *
from collections import Counter, defaultdict
from soynlp.vectorizer import sent_to_word_contexts_matrix
TOK = {'split': lambda x: x.split(), 'chars': lambda x: list(x)}


def check(case):
    S, W, mt, dyn = case['sents'], case['windows'], case['min_tf'], case['dynamic']
    tok = TOK[case['tok']]
    kw = {} if case['tok'] == 'split' else {'tokenizer': tok}
    x, idx = sent_to_word_contexts_matrix(list(S), windows=W, min_tf=mt, dynamic_weight=dyn, verbose=False, **kw)
    ctx = 'windows=%d, min_tf=%d, dynamic_weight=%r, tokenizer=%s on %r' % (W, mt, dyn, case['tok'], S)
    c = Counter(w for s in S for w in tok(s))
    voc = {w for w in c if c[w] >= mt}
    if set(idx) != voc or len(idx) != len(voc): return '%s: vocabulary %r, frequent words %r' % (ctx, idx, sorted(voc))
    if x.shape != (len(voc), len(voc)): return '%s: shape %r' % (ctx, x.shape)
    e = defaultdict(float)
    for s in S:
        ws = tok(s)
        for i in range(len(ws)):
            for d in range(1, W + 1):
                if i + d < len(ws) and ws[i] in voc and ws[i + d] in voc:
                    v = (W - d + 1) / W if dyn else 1
                    e[ws[i], ws[i + d]] += v; e[ws[i + d], ws[i]] += v
    a = x.toarray()
    for i, p in enumerate(idx):
        for j, q in enumerate(idx):
            if abs(a[i, j] - e[p, q]) > 1e-9: return '%s: entry (%r, %r) is %r, not %r' % (ctx, p, q, a[i, j], e[p, q])
            if abs(a[i, j] - a[j, i]) > 1e-9: return '%s: not symmetric at (%r, %r)' % (ctx, p, q)


def gen(rng, lits):
    ws = [word(rng, lits, n=rng.randint(1, 2)) for _ in range(rng.choice([1, 2, 4, 8]))]
    S = [' '.join(rng.choice(ws) for _ in range(rng.choice([0, 1, 2, 5, 12]))) for _ in range(rng.choice([1, 2, 4]))]
    return {'sents': S, 'windows': rng.choice([1, 2, 3, 3, 4, 7]), 'min_tf': rng.choice([0, 1, 1, 2, 3, 10]), 'dynamic': rng.random() < .5, 'tok': rng.choice(['split', 'split', 'chars'])}


def valid(c): return c['windows'] >= 1 and c['windows'] < 100 and c['tok'] in TOK
def trivial(c): return not any(len(s.split()) > 1 for s in c['sents'])
