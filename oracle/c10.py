from .core import *
from soynlp import postagger
from soynlp.postagger import _template, _evaluator, _tagger
from soynlp.postagger._dictionary import Dictionary
TAGS = ['Noun', 'Josa', 'Verb', 'Adjective', 'Adverb', 'Exclamation', 'Eomi']


def check(case):
    s = case['s']
    pd = {t: set(ws) for t, ws in case['dict']}
    tem = {l: tuple(r) for l, r in case['templates']} or None
    lt = set(case['ltags']) or None
    pref = {t: {w: x for w, x in ws} for t, ws in case['pref']}
    d = Dictionary({t: set(ws) for t, ws in pd.items()})
    g = _template.LRTemplateMatcher(d, ltags=lt, templates=tem)
    ev = _evaluator.LREvaluator(preference=pref)
    pp = _tagger.UnknowLRPostprocessor()
    LT = lt or {'Noun', 'Adjective', 'Verb', 'Adverb', 'Exclamation'}
    TE = tem or {'Noun': ('Josa', 'Verb', 'Adjective')}
    ctx = 'dictionary %r, templates %r, ltags %r, preference %r' % (pd, tem, lt, pref)
    r = _tagger.SimpleTagger(g, ev, pp).tag(s, flatten=False)
    toks = s.split()
    if len(r) != len(toks): return '%s: tag(%r) has %d eojeols' % (ctx, s, len(r))
    for k, ws in zip(toks, r):
        if ''.join(w for w, _ in ws) != k: return '%s: tag: %r gives %r' % (ctx, k, ws)
        for w, t in ws:
            if not w: return '%s: tag: %r gives an empty word in %r' % (ctx, k, ws)
            if t is not None and w not in pd.get(t, ()): return '%s: tag: %r is tagged %r' % (ctx, w, t)
        c = g.generate(k)
        best = ev.select_best(c)
        lrs = pp.postprocess(k, best)
        fl = [x for w in lrs for x in ((w.l, w.l_tag), (w.r, w.r_tag)) if x[0]]
        if fl != [tuple(x) for x in ws]: return '%s: tag of %r is %r, its parts %r' % (ctx, k, ws, fl)
        p, prev = 0, False
        for w in lrs:
            if w.b != p or not w.b <= w.m <= w.e or k[w.b:w.m] != w.l or k[w.m:w.e] != w.r or w.e <= w.b: return '%s: word %r of %r does not continue at %d' % (ctx, tuple(w), k, p)
            p = w.e
            if w.l_tag is None:
                if w.r or w.r_tag is not None: return '%s: untagged word %r has a right part' % (ctx, tuple(w))
                if prev: return '%s: uncovered stretch of %r is split: %r' % (ctx, k, [tuple(x) for x in lrs])
                prev = True
                continue
            prev = False
            if w.l_tag not in LT or w.l not in pd.get(w.l_tag, ()): return '%s: left part %r of %r' % (ctx, tuple(w), k)
            if w.r and (w.r_tag not in TE.get(w.l_tag, ()) or w.r not in pd.get(w.r_tag, ())): return '%s: right part of %r in %r' % (ctx, tuple(w), k)
            if not w.r and w.r_tag is not None: return '%s: %r tags an empty right part' % (ctx, tuple(w))
        if p != len(k): return '%s: words of %r end at %d' % (ctx, k, p)
        known = sorted((w for w in lrs if w.l_tag is not None), key=lambda w: w.b)
        if known != list(best): return '%s: postprocessing of %r changes the tagged words %r' % (ctx, k, [tuple(x) for x in best])
    f = _tagger.SimpleTagger(g, ev, pp).tag(s)
    if f != [w for ws in r for w in ws]: return '%s: tag(%r) flattened %r' % (ctx, s, f)
    e = _tagger.SimpleTagger(_template.EojeolTemplateMatcher(d), _evaluator.SimpleEojeolEvaluator(), pp).tag(s, flatten=False)
    for k, ws in zip(toks, e):
        if ''.join(w for w, _ in ws) != k: return '%s: eojeol tagger: %r gives %r' % (ctx, k, ws)
        for w, t in ws:
            if t is not None and w not in pd.get(t, ()): return '%s: eojeol tagger: %r is tagged %r' % (ctx, w, t)


def gen(rng, lits):
    ab = [char(rng, lits) for _ in range(rng.choice([1, 2, 3, 6]))]
    s = sentence(rng, lits, rng.choice([None, 5, 10, 20]), ab)[:60]
    d = {}
    for t in s.split():
        sub = subs(t[:10], 1, 5)
        for w in rng.sample(sub, min(len(sub), rng.choice([0, 2, 4, 8]))): d.setdefault(rng.choice(TAGS[:3] * 2 + TAGS), set()).add(w)
    d.setdefault('Noun', set()).add(word(rng, lits, ab))
    if rng.random() < .2: d.setdefault(rng.choice(TAGS), set())
    te = [] if rng.random() < .6 else [[t, rng.sample(TAGS, rng.randint(1, 3))] for t in rng.sample(TAGS, rng.randint(1, 3))]
    lt = [] if rng.random() < .6 else sorted(rng.sample(TAGS, rng.randint(1, 4)))
    pr = [] if rng.random() < .6 else [[t, [[w, rng.choice([1.0, 5.0, -1.0, .5])] for w in sorted(ws)[:3]]] for t, ws in sorted(d.items())]
    return {'s': s, 'dict': [[t, sorted(ws)] for t, ws in d.items()], 'templates': te, 'ltags': lt, 'pref': pr}


def valid(c): return any(ws for ws in dict(c['dict']).values()) and all(w for _, ws in c['dict'] for w in ws) and all(r for _, r in c['templates'])
def trivial(c): return not c['s'].split()
