import contextlib
import io
from .core import *
from soynlp.noun import LRNounExtractor_v2
from soynlp.utils import LRGraph

NAMES = ('pos', 'common', 'neg', 'unknown', 'stand-alone')


def make(case):
    rows = {}
    for l, rs in case['rows']:
        for r, n in rs:
            d = rows.setdefault(l, {})
            d[r] = d.get(r, 0) + n
    head = os.path.join(os.environ['ORACLE_TMP'], 'features')
    if not os.path.exists(head + '_pos'):
        for k in ('_pos', '_neg'): open(head + k, 'w').close()
    ex = LRNounExtractor_v2(predictor_headers=[head], verbose=False, min_num_of_features=case['least'], max_frequency_when_noun_is_eojeol=case['often'], extract_compound=case['compounds'], postprocessing=case['steps'])
    ex.train(LRGraph(lrgraph={l: dict(d) for l, d in rows.items()}))
    ex._pos_features, ex._neg_features, ex._common_features = set(case['pos']), set(case['neg']), set(case['common'])
    return ex, rows


def longer(w, r, s): return any(w[e:] + r in s for e in range(len(w)))


def expected(case, w, row, m):
    P, N, C = set(case['pos']), set(case['neg']), set(case['common'])
    n = dict.fromkeys(NAMES, 0)
    for r, c in row.items():
        if r == '': n['stand-alone'] += c
        elif longer(w, r, P) or longer(w, r, N): pass
        elif r in C: n['common'] += c
        elif r in P: n['pos'] += c
        elif r in N: n['neg'] += c
        else: n['unknown'] += c
    t = tuple(n[k] for k in NAMES)
    pos, common, neg, unk, end = t
    base = (pos - neg) / (pos + neg) if pos + neg else 0
    support = (pos if base >= m else neg) + end + common
    features = sum(1 for r in row if r in P and not longer(w, r, P) or r in N and not longer(w, r, N))
    all_, share = sum(t), pos + common + end
    if features > case['least']: s = (support, base)
    elif not all_: s = (support, 0)
    elif end > case['often'] and pos >= neg: s = (support, base)
    elif (common or pos) and end / all_ >= .3 and common >= neg: s = (share, share / all_)
    else:
        first = {r[0] for r in row if r and (not (r in P or r in C) or not longer(w, r, P))}
        s = (share, share / all_) if len(first) > 1 else (support, 0)
    return t, s


def near(a, b): return a[0] == b[0] and abs(a[1] - b[1]) < 1e-9


def check(case):
    ex, rows = make(case)
    m = case['score']
    ctx = 'graph %r, positive %r, negative %r, common %r' % (rows, sorted(set(case['pos'])), sorted(set(case['neg'])), sorted(set(case['common'])))
    for w in list(rows) + ['가나']:
        row = rows.get(w, {})
        t, s = expected(case, w, row, m)
        got = ex.predict(w, m)
        if not near(got, s): return '%s: predict(%r, %r) = %r, not %r (features > %d, stand-alone > %d)' % (ctx, w, m, got, s, case['least'], case['often'])
        if not -1 <= got[1] <= 1 or not 0 <= got[0] <= sum(row.values()): return '%s: predict(%r) = %r' % (ctx, w, got)
        try: p = priv(ex, '_predict')
        except Skip: continue
        g = p(w, list(row.items()))
        if tuple(g) != t: return '%s: the counts of %r are %r, not %r' % (ctx, w, dict(zip(NAMES, g)), dict(zip(NAMES, t)))
    cand = dict(priv(ex, '_noun_candidates_from_positive_features')())
    exp = {w for w, d in rows.items() if any(r and r in ex._pos_features for r in d)}
    if set(cand) != exp: return '%s: the candidates are %r, not %r' % (ctx, sorted(cand), sorted(exp))
    if any(v <= 0 for v in cand.values()): return '%s: candidates %r' % (ctx, cand)
    got = priv(ex, '_batch_predicting_nouns')(cand, m)
    if set(got) != exp: return '%s: predictions for %r, not %r' % (ctx, sorted(got), sorted(exp))
    now = {l: dict(ex.lrgraph.get_r(l, -1)) for l in rows}
    for w, (n, s) in got.items():
        if n < 0 or not -1 <= s <= 1: return '%s: %r is predicted as %r' % (ctx, w, (n, s))
        if n > sum(rows[w].values()): return '%s: the support of %r is %r' % (ctx, w, n)
        if s >= m and now[w]: return '%s: %r reaches %r with %r but keeps %r' % (ctx, w, m, s, now[w])
    for l in rows:
        for r, c in now[l].items():
            if r not in rows[l] or c > rows[l][r]: return '%s: after the prediction %r + %r has the count %r' % (ctx, l, r, c)
    # extraction
    for reset in (True, False):
        ex, _ = make(case)
        ex.verbose = not reset
        with contextlib.redirect_stdout(io.StringIO()): got = ex.extract(m, case['frequency'], reset)
        ex.verbose = False
        c2 = ctx + ', steps %r' % case['steps']
        for w, (n, s) in got.items():
            if n < case['frequency']: return '%s: extract(%r, %r) returns %r with the frequency %r' % (c2, m, case['frequency'], w, n)
            if s < m and not case['compounds']: return '%s: extract(%r) returns %r with the score %r' % (c2, m, w, s)
            if 'ignore_features' in case['steps'] and (w in ex._pos_features or w in ex._common_features): return '%s: extract returns the feature %r' % (c2, w)
        now = {l: dict(ex.lrgraph.get_r(l, -1)) for l in rows}
        if reset and now != rows: return '%s: the graph is %r after the extraction' % (c2, now)
        if not reset:
            for w in rows:
                for r, n in now[w].items():
                    if r not in rows[w] or n > rows[w][r]: return '%s: after the extraction %r + %r has the count %r' % (c2, w, r, n)
                if w in got and w in exp:
                    bad = [r for r in now[w] if len(w) > 1 or not r or r in ex._pos_features or r in ex._common_features]
                    if bad: return '%s: the noun %r still has the right parts %r' % (c2, w, bad)
    ex, _ = make(case)
    kind, new = case['more']
    new = set(new)
    f = priv(ex, '_append_features')
    P, N, C = set(ex._pos_features), set(ex._neg_features), set(ex._common_features)
    if kind not in ('pos', 'neg', 'common'):
        try: f(kind, set(new))
        except ValueError: return
        return 'features of the kind %r are accepted' % kind
    f(kind, set(new))
    E = dict(pos=(P | new - N, N, C | new & N), neg=(P, N | new - P, C | new & P), common=(P, N, C | new))[kind]
    G = (ex._pos_features, ex._neg_features, ex._common_features)
    if G != E: return 'appending %r as %s to %r gives %r, not %r' % (sorted(new), kind, (P, N, C), G, E)


def gen(rng, lits):
    ab = [char(rng, lits) for _ in range(rng.choice([1, 2, 3]))] + list('가이')
    J = list('은는이가을를') + ['에서', '으로', '이다', '다고'] + [word(rng, lits, ab, rng.randint(1, 2)) for _ in range(3)]
    feats = lambda: [rng.choice(J) + (rng.choice(J) if rng.random() < .2 else '') for _ in range(rng.choice([0, 1, 2, 4, 6]))]
    pos, neg = feats(), feats()
    both = set(pos) & set(neg)
    common = sorted(both) + [x for x in feats() if rng.random() < .4]
    pos, neg = ([x for x in s if x not in both] for s in (pos, neg))
    if rng.random() < .7: common = [x for x in common if x not in pos and x not in neg]
    words = [word(rng, lits, ab, rng.randint(1, 4)) for _ in range(rng.choice([1, 2, 4, 6]))]
    words += [w + rng.choice(J) for w in words if rng.random() < .4]
    big = rng.choice([1, 3, 10, 40])
    rows = [[w, [[rng.choice(J + pos + neg + common + ['', '']) if rng.random() < .85 else word(rng, lits, ab, rng.randint(1, 3)), rng.randint(1, big)] for _ in range(rng.choice([1, 2, 3, 5, 8]))]] for w in words]
    if pos and rng.random() < .5:      # a feature that a longer one extends by the end of a word
        w = rng.choice(words)
        (pos if rng.random() < .6 else neg).append(w[-rng.randint(1, len(w)):] + rng.choice(pos))
    new = feats() + [x for x in pos + neg if rng.random() < .3]
    if rng.random() < .02: rows = []
    return {'rows': rows, 'pos': pos, 'neg': neg, 'common': common, 'least': rng.choice([0, 1, 1, 1, 2, 3]), 'often': rng.choice([0, 1, 2, 5, 30]), 'score': rng.choice([.3, .3, .5, 0, .1, 1, -1, .2]), 'frequency': rng.choice([1, 1, 2, 5, big]), 'compounds': rng.random() < .5,
            'steps': rng.choice([['detaching_features', 'ignore_features', 'ignore_NJ'], ['ignore_features'], ['ignore_NJ'], ['detaching_features'], ['ignore_NJ', 'ignore_features'], ['none']]),
            'more': [rng.choice(['pos', 'pos', 'neg', 'neg', 'common', 'posi', '', 'Pos']), new]}


def valid(c):
    if not c['steps'] or not all(isinstance(x, str) for x in c['steps']) or not c['least'] >= 0: return False
    sp = lambda s: any(x.isspace() for x in s)
    if len(c['more']) != 2 or not isinstance(c['more'][0], str): return False
    fs = c['pos'] + c['neg'] + c['common'] + c['more'][1]
    return all(isinstance(f, str) and f and not sp(f) for f in fs) and all(len(x) == 2 and x[0] and x[1] and not sp(x[0]) and all(len(p) == 2 and type(p[1]) is int and p[1] > 0 and not sp(p[0]) for p in x[1]) for x in c['rows']) \
        and not set(c['pos']) & set(c['neg'])
def trivial(c): return not c['pos']
