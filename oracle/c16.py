from .core import *
from collections import Counter
from soynlp.vectorizer import BaseVectorizer
import io
TOK = {'split': lambda x: x.split(), 'chars': lambda x: list(''.join(x.split())), 'half': lambda x: [t[:2] for t in x.split()], 'gen': lambda x: (t for t in x.split())}


def check(case):
    docs, kw = case['docs'], dict(case['kw'])
    tok = TOK[case['tok']]
    v = BaseVectorizer(tokenizer=tok, verbose=False, **kw)
    ret = v.fit(list(docs))
    ctx = 'tokenizer %s, %r, fitted on %r' % (case['tok'], kw, docs)
    tf, df = Counter(), Counter()
    for d in docs:
        c = Counter(tok(d)); tf.update(c); df.update(set(c))
    n = len(docs)
    lo, hi = int(n * kw['min_df']), int(n * kw['max_df'])
    voc = {t for t in tf if kw['min_tf'] <= tf[t] <= kw['max_tf'] and lo <= df[t] <= hi}
    V = v.vocabulary_
    if set(V) != voc: return '%s: vocabulary %r, terms within the bounds %r' % (ctx, sorted(V), sorted(voc))
    if sorted(V.values()) != list(range(len(voc))): return '%s: indices %r' % (ctx, sorted(V.values()))
    if len(v.idx2vocab) != len(voc) or any(v.idx2vocab[i] != t for t, i in V.items()) or len(v) != len(voc): return '%s: reverse list %r of %r' % (ctx, v.idx2vocab, V)
    if any(tf[a] < tf[b] for a, b in zip(v.idx2vocab, v.idx2vocab[1:])): return '%s: not ordered by frequency: %r' % (ctx, [(t, tf[t]) for t in v.idx2vocab])
    if list(v.vocabs()) != list(v.idx2vocab): return '%s: vocabs() = %r' % (ctx, v.vocabs())
    probe = docs + case['more']
    for d in probe:
        ts = [t for t in tok(d) if t in voc]
        l = v.encode_a_doc_to_list(d)
        if l != [V[t] for t in ts]: return '%s: encode_a_doc_to_list(%r) = %r' % (ctx, d, l)
        if v.decode_from_list(l) != ts: return '%s: decode_from_list(%r) = %r, not %r' % (ctx, l, v.decode_from_list(l), ts)
        b = v.encode_a_doc_to_bow(d)
        if dict(b) != {V[t]: c for t, c in Counter(ts).items()}: return '%s: encode_a_doc_to_bow(%r) = %r' % (ctx, d, b)
        if dict(v.decode_from_bow(b)) != dict(Counter(ts)): return '%s: decode_from_bow(%r) = %r' % (ctx, b, v.decode_from_bow(b))
    if voc:
        x = v.transform(list(probe))
        if x.shape != (len(probe), len(voc)): return '%s: transform gives shape %r for %d documents' % (ctx, x.shape, len(probe))
        a = x.toarray()
        for i, d in enumerate(probe):
            c = Counter(tok(d))
            for t in voc:
                if a[i, V[t]] != c[t]: return '%s: row of %r holds %r for %r' % (ctx, d, a[i, V[t]], t)
        y = BaseVectorizer(tokenizer=tok, verbose=False, **kw).fit_transform(list(docs))
        if (y.toarray() != a[:n]).any(): return '%s: fit_transform differs from transform' % ctx
        p = os.path.join(os.environ['ORACLE_TMP'], 'm.mtx')
        v.to_file(list(probe), p)
        L = open(p, encoding='utf-8').read().split('\n')[2:]
        if L[0].split() != [str(len(probe)), str(len(voc)), str(int((a > 0).sum()))]: return '%s: to_file writes the header %r' % (ctx, L[0])
        got = {tuple(map(int, q.split())) for q in L[1:] if q}
        exp = {(i + 1, j + 1, int(a[i, j])) for i, j in zip(*a.nonzero())}
        if got != exp: return '%s: to_file writes %r, not %r' % (ctx, sorted(got), sorted(exp))
    if case['tok'] != 'x':
        p = os.path.join(os.environ['ORACLE_TMP'], 'v' + case['suffix'])
        v.save(p)
        w = BaseVectorizer(tokenizer=tok, verbose=False)
        w.load(p)
        if w.vocabulary_ != V or list(w.idx2vocab) != list(v.idx2vocab) or len(w) != len(v): return '%s: saved and loaded %r' % (ctx, w.vocabulary_)


def gen(rng, lits):
    ab = [char(rng, lits) for _ in range(rng.choice([1, 2, 3, 6]))]
    ws = [word(rng, lits, ab, rng.randint(1, 4)) for _ in range(rng.choice([2, 4, 8]))]
    doc = lambda: ' '.join(rng.choice(ws) for _ in range(rng.choice([0, 1, 3, 8, 20])))
    docs = [doc() for _ in range(rng.choice([1, 2, 3, 5, 11]))]
    kw = {'min_tf': rng.choice([0, 0, 1, 2, 3]), 'max_tf': rng.choice([99999999, 99999999, 2, 5]), 'min_df': rng.choice([0, 0, .2, .5]), 'max_df': rng.choice([1.0, 1.0, .5, .8])}
    return {'docs': docs, 'more': [doc() + ' ' + word(rng, lits)], 'kw': kw, 'tok': rng.choice(['split', 'split', 'chars', 'half']), 'suffix': rng.choice(['.vocab', '', '.txt'])}


def valid(c): return c['docs'] and 0 <= c['kw']['min_df'] < 1 and 0 < c['kw']['max_df'] <= 1 and '/' not in c['suffix'] and len(c['suffix']) < 20 and '\0' not in c['suffix'] and c['tok'] in TOK
def trivial(c): return not any(d.split() for d in c['docs'])
