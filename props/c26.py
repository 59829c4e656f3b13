"""Noun extraction: feature dictionary, scores from right-part counts, candidates, extraction."""
from .counts import *
from .maxscore import maxscore, M, REC, RECS
from pyvc.exec import CObj, CPy, CList
from pyvc.expr import STRSEQ
from pyvc.theory import STR

V = 'soynlp.noun._noun_ver2:LRNounExtractor_v2'
P = 'soynlp.noun._noun_postprocessing:'
SC = 'tup[int,real]'
N = 'dict[str,%s]' % SC
FS = 'list[tup[str,int]]'
NOTES = ['a feature file holds the lines LINES(name); log files are written to and never read; check_dirs changes no value',
         'the words of the graph hold no whitespace; no predictor-feature extraction (extract_pos_feature off)']

BOTHG = [b.replace('self._', 'self.lrgraph._') for b in BOTH]

implies_ = lambda a, b: 'implies(%s, %s)' % (a, b)


def build():
    c = context()
    graph(c, False)
    S3 = [('p', 'set[str]'), ('n', 'set[str]'), ('c', 'set[str]')]
    s3 = 'self._pos_features, self._neg_features, self._common_features'
    # w, joined with a non-empty end of the word, is a known feature
    c.fn('LONGER', [('word', 'str'), ('r', 'str'), ('s', 'set[str]')], 'bool', 'exists(lambda e: 0 <= e < len(word) and word[e:] + r in s)')
    # 0 stand-alone, 1 ignored, 2 common, 3 positive, 4 negative, 5 unknown
    c.fn('CLASS', [('word', 'str'), ('r', 'str')] + S3, 'int', 'ite(r == "", 0, ite(LONGER(word, r, p) or LONGER(word, r, n), 1, ite(r in c, 2, ite(r in p, 3, ite(r in n, 4, 5)))))')
    c.fn('SUM', [('word', 'str'), ('f', FS), ('k', 'int'), ('n', 'int')] + [(a + '_', t) for a, t in S3], 'int',
         'ite(n <= 0, 0, SUM(word, f, k, n - 1, p_, n_, c_) + ite(CLASS(word, f[n - 1][0], p_, n_, c_) == k, f[n - 1][1], 0))')
    c.fn('COUNTS', [('word', 'str'), ('f', FS)] + S3, 'tup[int,int,int,int,int]', '(%s)' % ', '.join('SUM(word, f, %d, len(f), p, n, c)' % k for k in (3, 2, 4, 5, 0)), hidden=True)
    c.lemma('counts', [('word', 'str'), ('f', FS), ('j', 'int'), ('k', 'int')] + S3, ['k == len(f)'], ['COUNTS(word, f, p, n, c) == (%s)' % ', '.join('SUM(word, f, %d, len(f), p, n, c)' % k for k in (3, 2, 4, 5, 0))], trig=['SUM(word, f, j, k, p, n, c)'], pull=True)
    c.cls(V, {'_pos_features': 'set[str]', '_neg_features': 'set[str]', '_common_features': 'set[str]', 'lrgraph': 'obj ' + G, 'min_num_of_features': 'int', 'max_frequency_when_noun_is_eojeol': 'int', 'verbose': 'bool', '_num_of_eojeols': 'int', '_num_of_covered_eojeols': 'int', 'postprocessing': 'list[str]', 'logpath': 'opt[str]', 'extract_compound': 'bool', 'extract_pos_feature': 'bool', '_nouns': N, '_compound_decomposer': 'obj ' + M, '_compounds_components': 'dict[str,list[str]]'})
    self = ('self', 'obj ' + V)
    wr = [('word', 'str'), ('r', 'str')]
    for nm, f in (('pos', 'self._pos_features'), ('neg', 'self._neg_features')):
        c.add(Contract(V + '._exist_longer_' + nm, [self] + wr, returns='bool', ensures=['result == LONGER(word, r, %s)' % f]))
        c.loops[V + '._exist_longer_' + nm] = [Loop(['forall(lambda e: implies(_at < e < len(word), word[e:] + r not in %s))' % f])]
    sums = lambda k, n='len(features)', f='features': 'SUM(word, %s, %d, %s, %s)' % (f, k, n, s3)
    fe = ('features', FS)
    c.add(Contract(V + '._predict', [self, ('word', 'str'), fe], returns='tup[int,int,int,int,int]', ensures=['result == COUNTS(word, features, %s)' % s3]))
    c.loops[V + '._predict'] = [Loop(['%s == %s' % (v, sums(k, '_i')) for v, k in (('pos', 3), ('common', 2), ('neg', 4), ('unk', 5), ('end', 0))])]
    # -- the score
    a3 = ', p, n, c'
    ql = lambda r: '(({0} in p and not LONGER(word, {0}, p)) or ({0} in n and not LONGER(word, {0}, n)))'.format(r)
    c.fn('NF', [('word', 'str'), ('f', FS), ('k', 'int'), ('p', 'set[str]'), ('n', 'set[str]')], 'int', 'ite(k <= 0, 0, NF(word, f, k - 1, p, n) + ite(%s, 1, 0))' % ql('f[k - 1][0]'))
    c.add(Contract(V + '._get_nonempty_features', [self, ('word', 'str'), fe], returns='list[str]', ensures=['len(result) == NF(word, features, len(features), self._pos_features, self._neg_features)']))
    c.comps[V + '._get_nonempty_features'] = (1, {0: [Loop(['len(_out) == NF(word, features, _i, self._pos_features, self._neg_features)'], types={'_out': 'list[str]'})]})
    # f lists the right parts of the word with their counts
    row = ['forall(lambda i: implies(0 <= i < len(f), word in g and f[i][0] in g[word] and f[i][1] == g[word][f[i][0]] and f[i][1] > 0))',
           'forall(lambda i, j: implies(0 <= i and i < j and j < len(f), f[i][0] != f[j][0]))',
           'forall(lambda r: implies(word in g and r in g[word], exists(lambda i: 0 <= i < len(f) and f[i][0] == r)), r="str")']
    gwf = [('g', LR), ('word', 'str'), ('f', FS)]
    for k, q in enumerate(row):
        c.fn('ROW%d' % k, gwf, 'bool', q, hidden=True)
        c.lemma('row%d' % k, gwf, [q], ['ROW%d(g, word, f)' % k], trig=['ROW%d(g, word, f)' % k], pull=True)
    c.fn('ROW', gwf, 'bool', 'ROW0(g, word, f) and ROW1(g, word, f) and ROW2(g, word, f)')
    c.lemma('positive', gwf, ['ROW(g, word, f)'], ['forall(lambda i: implies(0 <= i < len(f), f[i][1] > 0))'], trig=['ROW(g, word, f)'])
    POS, COM, NEG, UNK, END = ('COUNTS(word, f, p, n, c)[%d]' % k for k in range(5))
    c.fn('TOTAL', [('f', FS), ('k', 'int')], 'int', 'ite(k <= 0, 0, TOTAL(f, k - 1) + f[k - 1][1])')
    c.fn('SHARE', [('a', 'int'), ('b', 'int')], 'real', 'a / b', hidden=True)
    c.quotient = 'SHARE'
    c.fn('RATIO', [('a', 'int'), ('b', 'int')], 'real', 'ite(a + b == 0, 0.0, SHARE(a - b, a + b))')
    WF = [('word', 'str'), ('f', FS)] + S3
    c.lemma('share', [('a', 'int'), ('b', 'int')], ['0 <= a <= b', 'b > 0'], ['0 <= SHARE(a, b) <= 1'], trig=['SHARE(a, b)'])
    c.fn('SUPPORT', WF + [('m', 'real')], 'int', 'ite(RATIO({p}, {n}) >= m, {p} + {e} + {c}, {n} + {e} + {c})'.format(p=POS, n=NEG, e=END, c=COM))
    c.fn('SEEN', WF, 'int', ' + '.join([POS, COM, NEG, UNK, END]))
    pce = '(%s + %s + %s)' % (POS, COM, END)
    base = 'RATIO(%s, %s)' % (POS, NEG)
    seen = 'SEEN(word, f%s)' % a3
    c.fn('PRED', WF + [('m', 'real'), ('least', 'int'), ('often', 'int'), ('support', 'int'), ('score', 'real')], 'bool',
         ('ite(NF(word, f, len(f), p, n) > least, support == {u} and score == {b}, ite({s} == 0, support == {u} and score == 0, ite({E} > often and {P} >= {N}, support == {u} and score == {b},'
          ' ite(({C} > 0 or {P} > 0) and SHARE({E}, {s}) >= 0.3 and {C} >= {N}, support == {x} and score == SHARE({x}, {s}), support == {x} and score == SHARE({x}, {s}) or support == {u} and score == 0))))').format(
              b=base, s=seen, E=END, P=POS, N=NEG, C=COM, x=pce, u='SUPPORT(word, f%s, m)' % a3))
    args = 'word, f, %s, min_noun_score, self.min_num_of_features, self.max_frequency_when_noun_is_eojeol' % s3
    up = ['0 <= k <= len(f)', 'forall(lambda i: implies(0 <= i < len(f), f[i][1] > 0))']
    one = 'SUM(word, f, j, %s' + a3 + ')'
    c.lemma('sum', [('word', 'str'), ('f', FS), ('j', 'int'), ('k', 'int')] + S3, up, [one % 'k' + ' >= 0'], measure='k', trig=[one % 'k'], hints=['implies(k > 0, %s >= 0)' % one % 'k - 1'])
    all6 = lambda k: ' + '.join('SUM(word, f, %d, %s%s)' % (j, k, a3) for j in range(6))
    c.lemma('sums', WF + [('k', 'int')], up, [all6('k') + ' == TOTAL(f, k)'], measure='k', trig=['SUM(word, f, 3, k%s)' % a3], hints=['implies(k > 0, %s == TOTAL(f, k - 1))' % all6('k - 1')])
    ex = lambda b: 'exists(lambda f: %s, f="%s", trig=COUNTS(word, f, %s))' % (b, FS, s3)
    PA = WF + [('m', 'real'), ('least', 'int'), ('often', 'int'), ('support', 'int'), ('score', 'real')]
    pa = 'PRED(%s)' % ', '.join(n for n, _ in PA)
    c.lemma('ratio', [('a', 'int'), ('b', 'int')], ['a >= 0', 'b >= 0'], ['-1 <= RATIO(a, b)', 'RATIO(a, b) <= 1'], trig=['RATIO(a, b)'])
    c.lemma('bounds', PA, ['forall(lambda i: implies(0 <= i < len(f), f[i][1] > 0))', pa], ['0 <= support', 'support <= TOTAL(f, len(f))', '-1 <= score', 'score <= 1'], trig=[pa])
    c.add(Contract(V + '.predict', [self, ('word', 'str'), ('min_noun_score', 'real'), ('debug', 'bool')], returns=SC, paths=True, chain=True, after={'features': (FS, ['ROW(self.lrgraph._lr, word, features)', 'forall(lambda i: implies(0 <= i < len(features), features[i][1] > 0))'])}, ensures=[
        ex('ROW(self.lrgraph._lr, word, f) and PRED(%s, result[0], result[1])' % args), ex('ROW(self.lrgraph._lr, word, f) and 0 <= result[0] <= TOTAL(f, len(f))'), '-1 <= result[1] <= 1']))
    c.loops[V + '.predict'] = [Loop([], types={'first_chars': 'set[str]'})]
    rows = lambda g, w, b: 'forall(lambda r: implies({1} in {0} and r in {0}[{1}], {2}), r="str")'.format(g, w, b)
    # -- candidates: the words seen with a positive right part
    cand = lambda q='': 'exists(lambda r: r in self._pos_features%s and r in self.lrgraph._rl and w in self.lrgraph._rl[r], r="str")' % q
    c.add(Contract(V + '._noun_candidates_from_positive_features', [self, ('condition', 'none')], returns=CNT, ensures=[w_('iff(w in result, %s)' % cand()), w_('implies(w in result, result[w] > 0)')]))
    c.loops[V + '._noun_candidates_from_positive_features'] = [
        Loop([w_('iff(w in N_from_J, %s)' % cand(' and _idx(r) < _i')), w_('implies(w in N_from_J, N_from_J[w] > 0)')], types={'N_from_J': CNT}, name='r'),
        Loop([w_('iff(w in N_from_J, %s or exists(lambda i: 0 <= i < _i and _it(i)[0] == w))' % cand(' and _idx(r, "r") < _i_r')), w_('implies(w in N_from_J, N_from_J[w] > 0)')], types={'N_from_J': CNT})]
    # -- batch prediction: longest words first; an accepted word keeps no right part
    gone = lambda d, m: w_('implies(w in {0} and {0}[w][1] >= {1}, w not in self.lrgraph._lr)'.format(d, m))
    fewer = 'forall(lambda a, b: implies(%s, %s and self.lrgraph._lr[a][b] <= old(self.lrgraph._lr)[a][b]), a="str", b="str")' % (has('self.lrgraph._lr', 'a', 'b'), has('old(self.lrgraph._lr)', 'a', 'b'))
    sane = lambda d: w_('implies(w in {0}, 0 <= {0}[w][0] and -1 <= {0}[w][1] and {0}[w][1] <= 1)'.format(d))
    GM = ['self.lrgraph._lr', 'self.lrgraph._rl']
    NOE = '"" not in self.lrgraph._lr'
    INV = WELL('self.lrgraph._lr') + BOTHG
    cn = ('noun_candidates', CNT)
    c.add(Contract(V + '._batch_predicting_nouns', [self, cn, ('min_noun_score', 'real')], returns=N, modifies=GM, paths=True, requires=[NOE], ensures=[
        w_('iff(w in result, w in noun_candidates)'), sane('result'), gone('result', 'min_noun_score'), fewer, NOE] + INV))
    less = 'forall(lambda a, b: implies(%s, %s and self.lrgraph._lr[a][b] <= pre(self.lrgraph._lr)[a][b]), a="str", b="str")' % (has('self.lrgraph._lr', 'a', 'b'), has('pre(self.lrgraph._lr)', 'a', 'b'))
    left = ['forall(lambda b, i: implies(%s and 0 <= i < _i, _it(i)[0] != b), b="str")' % has('self.lrgraph._lr', 'word', 'b'), less]
    P_ = 'prediction_scores'
    c.loops[V + '._batch_predicting_nouns'] = [
        Loop([w_('iff(w in prediction_scores, exists(lambda j: 0 <= j < _i and _it(j)[1] == w))'), sane(P_), gone(P_, 'min_noun_score'), fewer, NOE] + WELL('self.lrgraph._lr') + BOTHG, types={P_: N}, name='w'),
        Loop([w_('implies(w != word and w in {0} and {0}[w][1] >= min_noun_score, w not in self.lrgraph._lr)'.format(P_))] + left + [fewer, NOE] + WELL('self.lrgraph._lr') + BOTHG)]
    # -- what the nouns cover is taken out of the graph as constructed
    ORG = 'self.lrgraph._lr_origin'
    upto = 'forall(lambda a, b: implies(%s, %s and self.lrgraph._lr[a][b] <= %s[a][b]), a="str", b="str")' % (has('self.lrgraph._lr', 'a', 'b'), has(ORG, 'a', 'b'), ORG)
    c.fn('KEEP', [('w', 'str'), ('b', 'str'), ('p', 'set[str]'), ('c', 'set[str]')], 'bool', 'len(w) <= 1 and b != "" and b not in p and b not in c')
    keep = lambda w: 'KEEP(%s, b, self._pos_features, self._common_features)' % w
    stays = lambda w: implies_('{0} in nouns and {1}'.format(w, has('self.lrgraph._lr', w, 'b')), keep(w))
    seen_ = 'exists(lambda r: r in self._pos_features and r != "" and %s, r="str")' % has(ORG, 'w', 'r')
    c.add(Contract(V + '._check_covered_eojeols', [self, ('nouns', N)], requires=['"" not in ' + ORG], modifies=GM + ['new self.lrgraph._lr', 'new self.lrgraph._rl', 'self._num_of_covered_eojeols'], paths=True, ensures=[
        upto, 'forall(lambda w, b: implies(%s, %s), w="str", b="str")' % (seen_, stays('w'))] + INV))
    prev = lambda n, q='': 'forall(lambda w, b, j: implies(%s and w in nouns and 0 <= j < %s and not %s, _it(j%s)[1] != w), w="str", b="str")' % (has('self.lrgraph._lr', 'w', 'b'), n, keep('w'), q)
    c.loops[V + '._check_covered_eojeols'] = [
        Loop([prev('_i'), upto, NOE] + WELL('self.lrgraph._lr') + BOTHG, name='w'),
        Loop([prev('_i_w', ', "w"'), upto, NOE, less, 'forall(lambda b, i: implies(%s and 0 <= i < _i and not %s, _it(i)[0] != b), b="str")' % (has('self.lrgraph._lr', 'word', 'b'), keep('word'))] + WELL('self.lrgraph._lr') + BOTHG)]
    # -- extraction
    c.openhook = lambda ex, a, mode, st, node: ex.alloc(st, CObj('file', {'out': ex.alloc(st, CList(STR, STRSEQ.empty)), 'lines': None, 'pos': 0}))
    F = '(w in self._pos_features or w in self._common_features)'
    ign = 'exists(lambda j: 0 <= j < len(self.postprocessing) and self.postprocessing[j] == "ignore_features")'
    c.add(Contract(V + '._post_processing', [self, ('nouns', N), ('prediction_scores', N), ('compounds', N)], returns=N, assumed='C23', ensures=[
        w_('implies(w in result, w in nouns and result[w] == nouns[w])'), w_('implies(w in result and %s, not %s)' % (ign, F))]))
    c.add(Contract(V + '.extract_domain_pos_features', [self, ('noun_candidates', CNT)], assumed='requires False', requires=['False']))
    maxscore(c, False)
    TOK = 'tup[str,int,int,real,int]'
    c.add(Contract(V + '._parse_compound', [self, ('tokens', 'list[%s]' % TOK)], requires=['len(tokens) > 0'], returns='opt[list[str]]', paths=True, ensures=['implies(result is not None, len(some(result)) > 0)']))
    c.loops[V + '._parse_compound'] = [Loop([])]
    BLANK = 'forall(lambda w: implies(w in self.lrgraph._lr_origin, len(w.split()) == 1 and w.split()[0] == w), w="str")'
    c.add(Contract(V + '.extract_compounds', [self, ('candidates', CNT), ('prediction_scores', N), ('min_noun_score', 'real')], returns=N, paths=True, requires=[NOE, '"" not in ' + ORG, BLANK],
        modifies=GM + ['new self._compound_decomposer', 'new self._compounds_components'], ensures=[NOE, fewer] + INV))
    c.loops[V + '.extract_compounds'] = [Loop([NOE, fewer] + INV, types={'compounds_scores': 'dict[str,real]', 'compounds_counts': CNT, 'compounds_components': 'dict[str,list[str]]', 'candidates': CNT}), Loop([], types={'candidates': CNT})]
    c.add(Contract(V + '.extract', [self, ('min_noun_score', 'real'), ('min_noun_frequency', 'int'), ('reset_lrgraph', 'bool')], returns=N, paths=True,
        requires=[NOE, '"" not in ' + ORG, 'not self.extract_pos_feature', BLANK], modifies=GM + ['new self._compound_decomposer', 'new self._compounds_components', 'new self.lrgraph._lr', 'new self.lrgraph._rl', 'self._num_of_covered_eojeols', 'self._nouns', 'new self._nouns'], ensures=[
        w_('implies(w in result, result[w][0] >= min_noun_frequency and (self.extract_compound or result[w][1] >= min_noun_score))'), w_('implies(w in result and %s, not %s)' % (ign, F))]))
    c.loops[V + '.extract'] = [Loop([])]
    # -- the feature dictionary
    ft = ('features', 'set[str]')
    fs = lambda nm: 'self._%s_features' % nm
    grow = lambda nm, extra: w_('iff(w in {0}, w in old({0}) or {1})'.format(fs(nm), extra))
    same_ = lambda nm: w_('iff(w in {0}, w in old({0}))'.format(fs(nm)))
    c.add(Contract(V + '._append_features', [self, ('feature_type', 'str'), ft], paths=True, modifies=[fs('pos'), fs('neg'), fs('common')], raises={'ValueError': 'feature_type != "pos" and feature_type != "neg" and feature_type != "common"'}, ensures=[
        w_('iff(w in {0}, w in old({0}) or feature_type == "pos" and w in features and w not in {1})'.format(fs('pos'), 'old(' + fs('neg') + ')')),
        w_('iff(w in {0}, w in old({0}) or feature_type == "neg" and w in features and w not in {1})'.format(fs('neg'), 'old(' + fs('pos') + ')')),
        w_('iff(w in {0}, w in old({0}) or w in features and (feature_type == "common" or feature_type == "pos" and w in old({1}) or feature_type == "neg" and w in old({2})))'.format(fs('common'), fs('neg'), fs('pos')))]))
    return c
