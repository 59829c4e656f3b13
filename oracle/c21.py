from .core import *
from collections import Counter
import math
from soynlp.word import WordExtractor


def H(fs):
    s = sum(fs)
    return -sum(f / s * math.log(f / s) for f in fs) if fs else 0.0


def near(a, b): return abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))


def check(case):
    sents, kw, th = case['sents'], case['kw'], case['th']
    ml, mr, mf = kw['max_left_length'], kw['max_right_length'], kw['min_frequency']
    w = WordExtractor(verbose_points=0, **kw, **th)
    w.train(list(sents))
    ctx = '%r, %r trained on %r' % (kw, th, sents)
    L, R, AL, AR = Counter(), Counter(), Counter(), Counter()
    for s in sents:
        ws = s.split()
        for x in ws:
            if len(x) < 2: continue
            for i in range(1, len(x) + 1): L[x[:i]] += 1
            for i in range(1, len(x)): R[x[-i:]] += 1
        if len(ws) > 1:
            for k, x in enumerate(ws):
                r, l = ws[(k + 1) % len(ws)][0], ws[k - 1][-1]
                AL[x + ' ' + r] += 1
                AR[l + ' ' + x] += 1
                for i in range(1, len(x)):
                    AL[x[-i:] + ' ' + r] += 1
                    AR[l + ' ' + x[:i]] += 1
    allw = set(L) | set(R)
    kept = set()
    for x in allw:
        l, r = w.frequency(x)
        el = L[x] if L[x] >= mf else 0
        er = R[x] if R[x] >= mf else 0
        if len(x) <= ml and l != el: return '%s: left frequency of %r is %r, not %r' % (ctx, x, l, el)
        if len(x) <= mr and r != er: return '%s: right frequency of %r is %r, not %r' % (ctx, x, r, er)
        if len(x) <= ml and el or len(x) <= mr and er: kept.add(x)
    for x, f in w.L.items():
        if f != L[x] or f < mf: return '%s: L[%r] = %r, occurs %r times' % (ctx, x, f, L[x])
    for x, f in w.R.items():
        if f != R[x] or f < mf: return '%s: R[%r] = %r, occurs %r times' % (ctx, x, f, R[x])
    ks = {x for x in w.words()}
    if ks != kept: return '%s: words() = %r, not %r' % (ctx, ks ^ kept, 0)
    sc = w.word_scores()
    if set(sc) != kept: return '%s: scores of %r' % (ctx, set(sc) ^ kept)
    for x, s in sc.items():
        if s.leftside_frequency != w.frequency(x)[0] or s.rightside_frequency != w.frequency(x)[1]: return '%s: frequencies in the score of %r: %r' % (ctx, x, s)
        c = w.cohesion_score(x)
        if len(x) > 1:
            e = tuple((f / tot[k]) ** (1 / (len(x) - 1)) if f else 0 for f, tot, k in ((s.leftside_frequency, L, x[0]), (s.rightside_frequency, R, x[-1])))
        else: e = (0, 0)
        if not (near(c[0], e[0]) and near(c[1], e[1])): return '%s: cohesion of %r is %r, not %r' % (ctx, x, c, e)
        if not (near(c[0], s.cohesion_forward) and near(c[1], s.cohesion_backward)): return '%s: cohesion in the score of %r: %r' % (ctx, x, s)
        if len(x) + 1 <= min(ml, mr):
            be, av = w.branching_entropy(x), w.accessor_variety(x)
            l = [f for y, f in R.items() if y[1:] == x and f >= mf] + [f for y, f in AR.items() if y[2:] == x and y[1] == ' ' and f > 1]
            r = [f for y, f in L.items() if y[:-1] == x and f >= mf] + [f for y, f in AL.items() if y[:-2] == x and y[-2] == ' ' and f > 1]
            if av != (len(l), len(r)) or (s.left_accessor_variety, s.right_accessor_variety) != av: return '%s: accessor variety of %r is %r, in the score %r, expected %r' % (ctx, x, av, s, (len(l), len(r)))
            if not (near(be[0], H(l)) and near(be[1], H(r)) and near(be[0], s.left_branching_entropy) and near(be[1], s.right_branching_entropy)): return '%s: branching entropy of %r is %r, in the score %r, expected %r' % (ctx, x, be, s, (H(l), H(r)))
    for mf in (mf, case['again'], 0):
        w.min_frequency = mf
        exp = {x for x, s in sc.items() if s.left_branching_entropy >= th['min_left_branching_entropy'] and s.right_branching_entropy >= th['min_right_branching_entropy']
               and s.left_accessor_variety >= th['min_left_accessor_variety'] and s.right_accessor_variety >= th['min_right_accessor_variety']
               and max(s.leftside_frequency, s.rightside_frequency) >= mf
               and (len(x) < 2 or s.cohesion_forward >= th['min_cohesion_forward'] and s.cohesion_backward >= th['min_cohesion_backward'])}
        part = {x: s for x, s in sc.items() if len(x) != 2}
        for given, want in ((None, exp), (sc, exp), (part, exp & set(part))):
            if given is not None and not given: continue
            got = w.extract(given)
            if set(got) != want: return '%s, minimum frequency %r: extracts %r, but the words that pass are %r' % (ctx, mf, sorted(got), sorted(want))
            for x in want:
                if any(not near(a, b) for a, b in zip(got[x], sc[x])): return '%s: %r extracted with %r, has %r' % (ctx, x, got[x], sc[x])


def gen(rng, lits):
    ab = [char(rng, lits) for _ in range(rng.choice([1, 2, 3, 4]))]
    ws = [word(rng, lits, ab, rng.choice([1, 2, 2, 3, 4, 5, 7, 13])) for _ in range(rng.choice([2, 3, 6]))]
    sents = [rng.choice([' ', ' ', '  ', '\n']).join(rng.choice(ws) for _ in range(rng.choice([0, 1, 2, 3, 5, 9]))) for _ in range(rng.choice([1, 2, 4, 8]))]
    if rng.random() < .2: sents.append(sentence(rng, lits))
    kw = {'max_left_length': rng.choice([1, 2, 3, 5, 10]), 'max_right_length': rng.choice([1, 2, 3, 6]), 'min_frequency': rng.choice([1, 1, 2, 2, 3, 5])}
    th = {'min_cohesion_forward': rng.choice([0.0, .05, .3, .5]), 'min_cohesion_backward': rng.choice([0.0, 0.0, .3, .5]),
          'min_left_branching_entropy': rng.choice([0.0, 0.0, .5]), 'min_right_branching_entropy': rng.choice([0.0, 0.0, .5]),
          'min_left_accessor_variety': rng.choice([0, 0, 1, 2]), 'min_right_accessor_variety': rng.choice([0, 0, 1, 2])}
    return {'sents': sents, 'kw': kw, 'th': th, 'again': rng.choice([1, 2, 3, 4, 5])}


def valid(c): return c['sents'] and all(c['kw'][k] >= 1 for k in ('max_left_length', 'max_right_length', 'min_frequency')) and len(c['th']) == 6 and len(c['kw']) == 3
def trivial(c): return not any(len(x) > 1 for d in c['sents'] for x in d.split())
